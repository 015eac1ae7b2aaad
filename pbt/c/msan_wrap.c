/* MemorySanitizer: structures that the (uninstrumented) GSL allocates and fills. */
#include <sanitizer/msan_interface.h>
#include <gsl/gsl_multiroots.h>
gsl_multiroot_fsolver *__real_gsl_multiroot_fsolver_alloc(const gsl_multiroot_fsolver_type *T, size_t n);
gsl_multiroot_fsolver *__wrap_gsl_multiroot_fsolver_alloc(const gsl_multiroot_fsolver_type *T, size_t n)
{
  gsl_multiroot_fsolver *s = __real_gsl_multiroot_fsolver_alloc(T, n);
  __msan_unpoison(s, sizeof *s);
  return s;
}
