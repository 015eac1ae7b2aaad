#define _GNU_SOURCE 1
