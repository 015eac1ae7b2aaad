#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl (one property per line)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

G='src/graph.c'; M='src/modules.c'; B='src/bipartite.c'

# ---------------------------------------------------------------- networks
prop('C01', 'Building a network from a file yields exactly the network it describes',
 'For every well-formed adjacency file (labels under 100 characters) and every combination of the weight, self-link, add-weight and symmetric switches, the network built has one node per distinct label, numbered 0..n-1 in order of first appearance, and exactly the links, with exactly the weights, that the lines describe under those switches: repeated lines are ignored, or have their weights added when add-weight is on, self-links are dropped unless allowed, and symmetric building makes every link visible from both ends. Node lookup by label and by number, link lookup, degree and strength all agree with that link set. A line with too few fields makes the reader return no network.',
 ['inputs','configurations'],
 'every finite list of lines "label label [weight]" (any order, duplicates, reversed duplicates, self-links, labels below the documented length, any whitespace between fields) x all 16 switch combinations',
 'graph1 and giant read two fixed files and only count nodes and links; no test varies switches, duplicates, self-links or weights.',
 [G,'src/graph.h','lib/search.c'],
 [('file reader with label dictionary','src/graph.c FBuildNetwork, CreateNodeGraph, MakeLabelDict/GetNodeDict/FreeLabelDict'),('duplicate / self-link rules','src/graph.c AddAdjacency')],
 [('node list','linked list of nodes with consecutive numbers and adjacency lists','src/graph.h struct node_gra')])

prop('C02', 'Writing, re-reading and copying a network preserve it',
 'Writing a network as an adjacency list and reading the file back gives the same labelled nodes (isolated nodes aside, which the format cannot carry), links and weights (to the six significant digits written); the Pajek file lists every node once and every link (once per undirected pair in symmetric form) with matching numbers and, when asked, weights. A copied network is equal to its original node by node (labels, numbers, links, weights, coordinates, group number and other per-node attributes) and shares nothing with it: changing or freeing one leaves the other unchanged.',
 ['inputs','configurations'],
 'every network (directed/undirected, weighted/unweighted, with self-links and isolated nodes) x writer switches',
 'graph1 prints and re-reads one network without comparing it; copies are never compared or mutated.',
 [G],
 [('writers','src/graph.c FPrintNetAdjacencyList, FPrintPajekFile, FPrintDegrees'),('copy','src/graph.c CopyNetwork, CopyAdjacencyList, RewireAdjacencyByNum/ByLabel')])

prop('C03', 'Network editing operations keep the network equal to its edit history',
 'After any sequence of node additions, link additions, removals of existing links, removals of isolated nodes and clearing of links, the network contains exactly the nodes and links a mathematical graph given the same edits would contain, every adjacency entry points to a live node whose number it carries, and the degree, strength, link-count and lookup queries agree with the links actually present at that moment. Removing isolated nodes removes exactly the nodes with no links, reports how many, and renumbers the rest consecutively in order.',
 ['histories','inputs'],
 'every finite sequence of editing calls on directed and undirected networks',
 'No test removes a link or a node, nor mixes edits with cached degree/strength queries.',
 [G],
 [('link bookkeeping','src/graph.c AddAdjacency, RemoveLink, CleanAdjacencies, RemoveIsolatedNodes, RenumberNodes'),('cached degree and strength','src/graph.c NodeDegree, NodeStrength')],
 [('degree/strength','cached per-node counters that must follow the adjacency list','src/graph.h struct node_gra')])

prop('C04', 'Local network statistics equal their mathematical definitions',
 'For every network, node count, link count, degree, strength, average degree, average squared degree, clustering coefficients (mean local, transitivity and square clustering), per-node clustering, assortativity, mean neighbour degree, common neighbours, Jaccard index and topological overlap equal their textbook values computed from the set of links, with a fixed conventional value where they are undefined. Computing them leaves the network unchanged and does not depend on node or link order.',
 ['inputs'],
 'every undirected simple network (and directed ones where the function takes the switch), all sizes including empty, one-node, star, clique and disconnected ones',
 'graph1 prints some of the values for one fixed network; no oracle, no edge cases.',
 [G],
 [('statistics','src/graph.c AverageDegree, AverageSquaredDegree, TotalNLinks, ClusteringCoefficient, ClusteringCoefficient2, OneNodeClusteringCoefficient, SquareClustering, OneNodeSquareClustering, Assortativity, CalculateKnn, CommonNeighbors, JaccardIndex, TopologicalOverlap')])

prop('C05', 'Distances and betweenness are exact shortest-path quantities',
 'For every undirected network, average path length (-1 when disconnected), average inverse distance and the distance histograms equal those of the true all-pairs shortest-path lengths. Node betweenness (ordered pairs, equal share for every shortest path) and link betweenness (Newman, equal split among predecessors) equal their exact values, and the betweenness summary statistics and the reported most-central link agree with them.',
 ['inputs'],
 'every undirected simple network, connected or not',
 'The betweenness test compares one small fixed network; equal-length multipaths, disconnected parts and other topologies are not reached.',
 [G],
 [('breadth-first search','src/graph.c RenewQueue, Enqueue, EnqueueAdjaList, AveragePathLength, AverageInverseDistance, FPrintDistanceHistogram'),('betweenness','src/graph.c CalculateNodeBetweenness, CalculateLinkBetweenness, CalculateBiggestLinkBetweenness, NodeBetweennessStatistics')])

prop('C06', 'Connected components are found exactly',
 'For every network, the connectivity test, the number of components, the list of component networks and the extracted largest component agree with the true partition into connected components (for directed networks: weakly or strongly connected, as the function says): component networks are disjoint, cover every node once, keep labels, links and weights, are each connected, and the extracted giant component is one of the largest. The input network keeps its nodes and links.',
 ['inputs'],
 'every undirected network, including isolated nodes, several largest components of equal size, and arbitrary node order',
 'The giant test checks one file with one dominant component.',
 [G],
 [('component search','src/graph.c IsGraphConnected, AreConnectedList, CountStronglyConnectedSets, GetLargestStronglyConnectedSet, GetLargestWeaklyConnectedSet, GetAllConnectedSets'),('partition into components','src/modules.c ClustersPartition')])

prop('C07', 'Comparing and adding networks equal the set operations on links',
 'Comparing two networks reports exactly the numbers of nodes and links of each, of common labels and of common links (links whose both ends are common), and the matching overlap fractions; swapping the operands swaps the reported figures. Adding two networks gives exactly the union of labels and of links, where links of the first network keep their weights and links only in the second have weight one. Neither operand is modified.',
 ['inputs'],
 'every pair of undirected networks with overlapping label sets, in any node order',
 'netsum adds two fixed networks and looks at counts only; comparison is untested.',
 [G],
 [('comparison and union','src/graph.c CompareTwoNetworks, AddTwoNetworks')])

prop('C08', 'Randomising a network keeps what it must keep',
 'Randomising an undirected simple network, on which some swap is possible, leaves it with the same nodes, the same degree for every node and the same number of links, with no self-link or repeated link and every link seen from both ends. Adding or removing a number of random links adds or removes exactly that many distinct links, never creates a self-link or a duplicate, and touches nothing else; every eligible link can be chosen.',
 ['inputs','configurations'],
 'every undirected simple network on which a swap is possible, every seed, every amount of randomisation',
 'No test calls the randomiser or the random link editors.',
 [G],
 [('link swaps','src/graph.c RandomizeSymmetricNetwork'),('random edits','src/graph.c AddRandomLinks, RemoveRandomLinks')])

prop('C09', 'Network models generate networks from the stated ensembles',
 'Each model network has the requested number of nodes, is simple and undirected, and follows its model: an Erdos-Renyi graph has every link independently with the given probability (none at 0, all at 1), a preferential-attachment graph grows with m links per new node favouring high degree, and block and Girvan-Newman graphs link nodes with the probabilities of their blocks and record the planted group of each node. Bipartite modular networks have the requested modules, colours drawn with the given probabilities, team sizes uniform within the bounds (or geometric), and members drawn from the team colour with probability p while available, else uniformly.',
 ['inputs','configurations'],
 'all sizes and probabilities, all seeds; distributional parts over many seeds with calibrated tolerances',
 'graph1/bipart tests use a generator once as a fixture without checking it.',
 ['src/models.c',B],
 [('generators','src/models.c EmptyGraph, ERGraph, PAGraph, UndirectedBlockGraph, GirvanNewmanGraph; src/bipartite.c BuildModularBipartiteNetwork')])

prop('C10', 'Adjacency and Laplacian matrices and spectra are those of the network',
 'The adjacency matrix has one exactly where a link exists, the Laplacian is degree on the diagonal and minus one for each link, and the Laplacian spectrum is the ascending list of its eigenvalues: non-negative, with as many zeros as connected components and trace equal to the sum of degrees. Synchronizability is the ratio of the largest to the smallest non-zero eigenvalue.',
 ['inputs'],
 'every undirected simple network of two or more nodes',
 'lapspec checks one fixed network.',
 ['src/matrix.c'],
 [('matrices','src/matrix.c AdjacencyMat, LaplacianMat, LaplacianSpectrum, Synchronizability')])

prop('C11', 'Numeric helpers, lookup tables and containers are exact',
 'Mean, population standard deviation, minimum and maximum, factorials, binomials and their logarithms equal their definitions; each fast table (log, log-factorial, log-binomial, log-gamma, harmonic numbers) returns the same value as direct evaluation for every argument inside or outside the table. Stacks are last-in first-out and queues first-in first-out under every sequence of operations, with correct emptiness and length.',
 ['inputs','histories'],
 'all argument ranges around the table sizes; every operation sequence on stacks and queues',
 'The tools test evaluates a handful of values; containers are untested.',
 ['src/tools.c','src/datastruct.c'],
 [('tables','src/tools.c InitializeFast*/Fast*, InitializeHarmonicList'),('containers','src/datastruct.c stack_*, queue_*'),('statistics','src/tools.c mean, stddev, min, max, fact, Choose, LogChoose, CountLinesInFile')])

# ---------------------------------------------------------------- partitions (group lists)
prop('C12', 'A partition stays a consistent partition under node moves and group merges',
 'After any sequence of adding, removing and moving nodes, merging two different groups, compressing, copying and re-mapping, every node is in exactly the group the sequence put it in, group sizes count their nodes, and the per-group total, internal and external link counts and weights equal those recounted from the network. The fast variants (which skip link counters) give the same membership, and compressing keeps exactly the non-empty groups.',
 ['histories','inputs'],
 'every sequence of add/remove/move/merge/compress/copy/re-map operations on every undirected network (weighted or not, with or without self-links)',
 'coclas and bipart tests run one optimisation each; group counters are never recomputed independently.',
 [M],
 [('group bookkeeping','src/modules.c AddNodeToGroup, RemoveNodeFromGroup, MoveNode, MergeGroups, *Fast variants, CompressPart, MapPartToNet, MapPartToNetFast, ResetNetGroup, GetEmptyGroup, NGroups, NNonEmptyGroups, PartitionSize')],
 [('group counters','size and link totals maintained incrementally','src/modules.h struct group')])

prop('C13', 'Partitions can be created, copied, written and read back without change',
 'A partition (of nodes none of which is called ///, what separates groups) written to a file and read back, mapped onto its network, has the same groups with the same members and the correct link counters; copies and partitions built from node group numbers, from equal-size splitting or from connected components contain every node exactly once in the right group. A network built from a group holds exactly the group members and the links among them (or also their neighbours, for the variant that says so), and mapping softly onto a sub-network sets the group numbers of its nodes and changes nothing else.',
 ['inputs'],
 'every partition of every network, every list format switch, arbitrary labels',
 'No test reads a partition file.',
 [M],
 [('partition I/O','src/modules.c FCreatePartition, FPrintPartition, MapPartToNet, MapPartToNetSoft'),('construction','src/modules.c CreateEquiNPartition, CreateEquiNPartitionSoft, CreatePartitionFromInGroup, CopyPartition, CopyGroup, ClustersPartition, BuildNetFromGroup')])

prop('C14', 'Modularity, inter-group counts and partition comparison equal definitions',
 'For every network and partition, unweighted and weighted modularity equal the Newman-Girvan formula, link counts and weights between a node and a group or between two groups equal direct counts, and removing within-group or between-group links removes exactly those. The block model table lists for every pair of groups the true link count, fraction, probability or z-score, and the fraction of correctly classified nodes is that of the best mapping. Mutual information of two partitions equals the normalised information-theoretic value: symmetric, within [0,1], 1 for identical partitions (also single-group ones) and unaffected by relabelling groups.',
 ['inputs'],
 'every undirected network x every partition (and every pair of partitions)',
 'Tests compare optimised modularity on one network to a threshold only.',
 [M],
 [('modularity','src/modules.c Modularity, ModularityWeight'),('counts','src/modules.c NLinksToGroup*, StrengthToGroup*, NG2GLinks*, NWeight*'),('comparison','src/modules.c MutualInformation, CorrectlyClassified'),('link removal','src/modules.c RemoveWithinGroupLinks, RemoveBetweenGroupLinks, RemoveInterGroupLinks')])

prop('C15', 'Node roles in a partition follow the participation / z-score definition',
 'For every network and partition, the participation coefficient, the within-module relative degree (z-score) and their weighted versions equal their definitions, and the role catalogue puts every node in exactly the role region its two values fall in. Group size statistics equal the mean, deviation, minimum and maximum of the group sizes.',
 ['inputs'],
 'every undirected network (weighted or not) x every partition',
 'No test computes roles.',
 [M],
 [('role metrics','src/modules.c ParticipationCoefficient, WeightedParticipationCoefficient, WithinModuleRelativeDegree, WithinModuleRelativeStrength, CatalogRoleIdent, CatalogRoleIdentStrength, GroupSizeStatistics')])

prop('C16', 'Annealing-based module identification returns valid, good partitions',
 'For every network and every seed the legacy simulated-annealing module finder terminates and returns a partition that contains every node exactly once, with counters matching the network and no more groups than allowed; the modularity it prints while running is the true modularity, the partition it saves on the way is the best one so far, and the result depends on nothing but the input and the seed, in particular not on the output mode. Cooled slowly it is never worse than lumping all nodes and recovers obvious modules and small-network optima. Its group splitter returns one or two groups covering the group, separating disconnected parts and joined cliques.',
 ['inputs','configurations'],
 'every undirected network, initial group count, cooling parameters, collective-move switch, output mode and seed',
 'coclas runs one network once.',
 [M],
 [('annealing','src/modules.c SACommunityIdent, SAGroupSplit, ThermalNetworkSplit-like helpers')])

# ---------------------------------------------------------------- netcarto engine
prop('C17', 'Array-based partitions stay consistent under moves, merges and splits',
 'After any sequence of node moves, module merges, component splits, compressions and copies, every node is in exactly one module, module member lists contain exactly the nodes assigned to the module, module sizes and strengths are the sums over members, and the number of empty modules is right. Splitting a module separates it only along disconnected components of its subgraph, and copies are equal and independent.',
 ['histories','inputs'],
 'every operation sequence on every weighted undirected network',
 'The array-based engine has no unit test at all.',
 ['src/partition.c','src/movements.c'],
 [('moves','src/movements.c ChangeModule, MergeModules, SplitModuleByComponent'),('partition structure','src/partition.c CreatePartition, CopyPartitionStruct, CompressPartition, AssignNodesToModules')],
 [('doubly linked module lists','membership lists with size/strength/nempty counters','src/partition.h')])

prop('C18', 'Predicted modularity change equals the actual change of every move',
 'For every network, partition and candidate move, the modularity change predicted for moving a node to another module, or for merging two modules, equals the difference of the modularity computed from scratch before and after performing it. This holds for weighted, unweighted and projected bipartite networks and for moves into and out of empty modules.',
 ['inputs','histories'],
 'every network x partition x (node, target module) and (module, module) pair',
 'No test evaluates a move.',
 ['src/movements.c','src/partition.c'],
 [('incremental change','src/movements.c dEChangeModule, dEMergeModules'),('full value','src/partition.c PartitionModularity')])

prop('C19', 'Edge lists become the right network, modularity, connectivity and roles',
 'For every edge list the adjacency structure built holds each edge from both sides with its weight and node strengths normalised to total one (or left as they are), the modularity of a partition equals the Newman-Girvan value of the weighted network (with or without its diagonal term), and the connectivity z-scores (0 when all strengths in the module are equal), participation coefficients and role numbers equal their definitions.',
 ['inputs','configurations'],
 'every weighted or unweighted edge list and partition',
 'No test reaches these functions.',
 ['src/fillpartitions.c','src/partition.c'],
 [('construction','src/fillpartitions.c EdgeListToAdjaArray'),('measures','src/partition.c PartitionModularity, PartitionRolesMetrics, GetRole')])

prop('C20', 'Modularity annealing returns valid partitions that it has not made worse',
 'For every network, starting partition, cooling schedule and seed, annealing terminates without memory errors and returns a partition placing every node exactly once, whose modularity is at least that of the starting partition and of every partition reached at the end of a temperature step, and whose reported improvement is the true one; equal seeds give equal results. Cooled slowly, it is at least as good as the trivial partitions and finds disjoint or weakly joined cliques and the optimum of small networks within a few seeds; its nested splitter separates two cliques.',
 ['inputs','configurations'],
 'every network (including single edges, stars, disconnected graphs, one starting module) x annealing parameters x seed',
 'No test runs the array-based annealer.',
 ['src/sannealing.c'],
 [('annealing loop','src/sannealing.c GeneralSA, SplitModuleSA')])

prop('C21', 'netcarto file formats round-trip: edge lists, clusterings, module tables',
 'Reading an edge-list file gives every edge in order with the right labels and weights and one label per distinct node (for bipartite files, separate numbering per column, the projected one labelled), and a line with too few fields is reported; a clustering or module table written for a partition lists every node exactly once in its module, with its role values. Reading a clustering file back, with or without the modularity header, unknown names or missing nodes, assigns every listed node to the module of its line and reports the number missing.',
 ['inputs'],
 'every well-formed edge-list file (weighted or not, unipartite or bipartite, any blank spacing, with or without a final newline) and every partition',
 'No test covers these readers and writers.',
 ['src/io.c'],
 [('reader/writers','src/io.c EdgeListFileInput, TabularOutput, ClusteringOutput, AssignNodesToModulesFromFile')])

prop('C22', 'The netcarto program reports a true, reproducible modular structure',
 'For every input network file and option set, netcarto finishes successfully, its output lists every node exactly once with the module, role, connectivity and participation that recomputation from the input gives, the modularity it prints is that of the listed partition (and the optimum of small networks within a few seeds), the same seed gives byte-identical output, and other seeds and other annealing options search in other ways. An output file of an earlier run is replaced. A partition written by it and read back with the partition option gives the same modularity and partition.',
 ['inputs','configurations'],
 'every edge-list file x weighted/bipartite/cluster/partition/seed options',
 'The program is never run by the tests.',
 ['netcarto/main_netcarto.c','src/io.c','src/sannealing.c'],
 [('program','netcarto/main_netcarto.c main')])

prop('C23', 'Bipartite edge lists project onto the exact co-occurrence network',
 'Projecting a bipartite edge list without repeated edges gives, for the first node set, exactly the pairs that share at least one neighbour, with strength sum_a w_ia w_ja / sum_a S_a (S_a - S_a/d_a) and node strengths s_i / sum S, so that the modularity, connectivity, participation and roles of any partition equal their bipartite formulas. Every read and write stays inside its arrays, for any order of the edges.',
 ['inputs'],
 'every bipartite edge list (weighted or not), any ordering of edges',
 'No test reaches it.',
 ['src/fillpartitions.c'],
 [('projection','src/fillpartitions.c ProjectBipartEdgeList')])

# ---------------------------------------------------------------- bipartite
prop('C24', 'Bipartite networks are built, edited, copied and projected exactly',
 'A bipartite network built from a file has one node per distinct label in each column and exactly the listed links (weights summed or kept per the switches), visible from both sides; copying, inverting, removing a node, printing and re-reading preserve exactly the right nodes and links. The (weighted) projection links two first-set nodes with weight equal to their number of common neighbours (or sum of weight products), and nothing else; a line with too few fields is refused.',
 ['inputs','histories'],
 'every two-column file x switches; every sequence of copies, inversions and removals',
 'bipart1/bipart2 build fixed networks and compare only modularities.',
 [B],
 [('construction and editing','src/bipartite.c FBuildNetworkBipart, CopyBipart, InvertBipart, RemoveNodeBipart, NLinksBipart, FPrintBipart, FPrintPajekFileBipart'),('projection','src/bipartite.c ProjectBipart, ProjectBipartWeighted, NCommonLinksBipart, SumProductsOfCommonWeightsBipart')])

prop('C25', 'Bipartite modularity and participation equal their definitions',
 'For every bipartite network and partition of its first set, bipartite modularity is 2 sum over same-module pairs of c_ij / sum m(m-1) - t_i t_j / (sum m)^2 (weighted: products of weights and strengths S instead, with sum S^2 - S), the matrix version sums the given pair terms, and bipartite participation (0 without co-members) and its mean, deviation, minimum and maximum equal their definitions. The node table lists, in the given file, each first-set node once with its module and its role, participation and within-module z-score in the (weighted) projection, and leaves network and partition as they were.',
 ['inputs'],
 'every bipartite network x every partition',
 'bipart tests check one value on one network.',
 [B],
 [('modularity','src/bipartite.c ModularityBipart, ModularityBipartWeighted, ModularityBipartWeightedFast'),('participation','src/bipartite.c ParticipationCoefficientBipart, StatisticsParticipationCoefficientBipart'),('node table','src/bipartite.c FPrintTabNodesBipart')])

prop('C26', 'Randomising a bipartite network keeps both degree sequences',
 'Randomising a bipartite network returns a network with the same nodes on both sides, the same degree for every node, no repeated link, consistent two-way links and unit weights where the weights were one; it reaches exactly the networks that the requested number of link swaps can reach, and each of them for some seed.',
 ['inputs','configurations'],
 'every bipartite network on which a swap is possible, every seed and amount',
 'Not tested.',
 [B],
 [('swaps','src/bipartite.c RandomizeBipart')])

# ---------------------------------------------------------------- inference
SB='src/missing.c'; SP='src/sparse_missing.c'; MB='src/multiblock.c'; OD='src/only_deg.c'; RC='src/recommend.c'
prop('C27', 'Block-model samplers track their energy and link counts exactly',
 'Throughout any run of any Metropolis or Gibbs sampler for link reliability (standard, linear-cost, sparse-prior, several-valued links, and the overlapping AND / OR / degeneracy-only versions), the energy the sampler carries equals the energy of its current partition computed from scratch, the group-to-group link counts it carries equal the true counts, every node stays in exactly one group, and the network is untouched. Steps are made whatever the energy they gain or lose, however many nodes or links it comes from. Energy depends only on the partition, not on how groups are labelled or ordered.',
 ['histories','inputs'],
 'every network, starting partition, seed and number of steps, including partitions that collapse to one group or spread to all singletons',
 'No test runs a sampler.',
 [SB,SP,MB,OD],
 [('Metropolis step','src/missing.c LinkScoreMCStep, LSMCStepKState; src/multiblock.c LSMCStepMB, ORLSMCStepMB; src/only_deg.c LSMCStepMB_OD'),('Gibbs step','src/missing.c GibbsLinkScoreStep; src/sparse_missing.c SparseGibbsLinkScoreStep; src/multiblock.c GibbsLinkScoreStepMB, ORGibbsLinkScoreStepMB; src/only_deg.c GibbsLinkScoreStepMB_OD'),('reference energy','src/missing.c PartitionH, LSHKState; src/sparse_missing.c SparsePartitionH; src/multiblock.c PartitionHMB, ORPartitionHMB; src/only_deg.c PartitionHMB_OD')],
 [('H, G2G, n2g','incrementally maintained energy and count matrices','src/missing.c')])

prop('C28', 'Link reliabilities are the Bayesian posterior averages over partitions',
 'For every network of two or more nodes the link scores returned by the Metropolis, Gibbs, sparse-prior and several-valued samplers converge to the exact posterior average over all partitions of the predicted link probability given by the stochastic-block-model likelihood and its prior (the sparse prior needs a network that is neither empty nor complete). The estimate from N samples is the plain mean of what N partitions predict, however small N is. Scores are symmetric with zero diagonal, lie in [0,1], sum to one over the link values, and the observed network is left unchanged.',
 ['inputs','configurations'],
 'every small network (exact enumeration of all partitions) x seeds; symmetry and range for larger ones',
 'No test computes a reliability.',
 [SB,SP],
 [('estimators','src/missing.c LinkScore, GibbsLinkScore, LSMultiLinkScoreKState; src/sparse_missing.c SparseGibbsLinkScore')])

prop('C29', 'Overlapping-layer (AND, OR, degeneracy) scores are exact posterior means',
 'For every network the AND, OR and degeneracy-only link scores, sampled by Metropolis or by Gibbs, converge to the exact posterior average over all partitions under their own energy and predictive formula (N samples give the plain mean of what N partitions predict, however small N is), lie in [0,1] and are symmetric, and the network is left unchanged; no table is read outside its bounds whatever the number of nodes or links.',
 ['inputs','configurations'],
 'every small network (exact enumeration) x seeds, including empty, complete, two- and three-node networks',
 'No test touches these modules.',
 [MB,OD],
 [('estimators','src/multiblock.c LinkScoreMB, ORLinkScoreMB, GibbsLinkScoreMB, ORGibbsLinkScoreMB; src/only_deg.c LinkScoreMB_OD, GibbsLinkScoreMB_OD')])

prop('C30', 'The partition degeneracy term counts the pairs of layers it stands for',
 'For every number of groups below 70 the log-degeneracy equals (to 1e-6) the logarithm of the exact number of ways the groups arise from two overlapping partitions; beyond that it stays within one per cent of the exact value, and it grows strictly with the number of groups throughout.',
 ['inputs'],
 'all group counts 0..several hundred',
 'Not tested.',
 [MB],
 [('table','src/multiblock.c LogDegeneracy')])

prop('C31', 'Network scores, partition samples and reconstructions are consistent',
 'Scoring a network against itself gives exactly one, and against another network on the same nodes converges to the posterior ratio of predictive probabilities. Partition sampling writes the requested number of valid partitions of the nodes, drawn (for three or more nodes) from the block-model posterior, and reconstruction or block-model resampling returns a simple undirected network on the same labelled nodes. The structure score is the excess of the mean error of degree-preserving randomisations over the error of the network, in standard deviations. Estimation of the decorrelation time, of every Metropolis sampler, terminates for every network size with the mean of its estimates, those more than two standard deviations away left out (of the slower of the two sets of nodes in a recommender), and at least one step.',
 ['inputs','configurations'],
 'every undirected network from a few nodes up, every seed',
 'Not tested.',
 [SB],
 [('sampling','src/missing.c PartitionSampling, NetworkScore, NetReconstruct, NetFromSBMScores, SBMError, SBMStructureScore, GetDecorrelationStep, LSGetDecorrelationStepKState, CalculateDecay; src/multiblock.c GetDecorrelationStepMB, ORGetDecorrelationStepMB; src/only_deg.c GetDecorrelationStepMB_OD; src/recommend.c GetDecorrelationStep2State, GetDecorrelationStepKState')])

prop('C32', 'Recommender samplers track their energy and counts exactly',
 'Throughout any run of the two-state, K-state Metropolis and K-state Gibbs samplers, the carried energy equals the energy of the current pair of partitions computed from scratch, the carried node-to-group and group-to-group counts for each rating value equal true counts, the counted numbers of non-empty groups are right, and every node stays in exactly one group of its side, whatever the energy a step gains or loses.',
 ['histories','inputs'],
 'every rating network, K, seed, number of steps',
 'Not tested.',
 [RC],
 [('steps','src/recommend.c MCStep2State, MCStepKState, GibbsStepKState'),('reference','src/recommend.c H2State, HKState')])

prop('C33', 'Recommendations are exact posterior means and leave the ratings untouched',
 'For every rating network and set of queries the predicted probabilities converge to the exact average, over all pairs of partitions of users and items weighted by the block-model posterior given the observed ratings, of the predictive probability of each rating (N samples give the plain mean of what N pairs of partitions predict, however small N is); they lie in [0,1] and sum to one over rating values. The observed ratings, the queries and their order are unchanged, and a queried pair that is already rated does not use its own rating.',
 ['inputs','configurations'],
 'every small rating network (exact enumeration) x query set x K x seeds',
 'Not tested.',
 [RC],
 [('estimators','src/recommend.c MultiLinkScore2State, MultiLinkScoreKState, GibbsMultiLinkScoreKState')])

prop('C34', 'Rating files, unobserved sets and queries are handled exactly',
 'Reading observations and queries yields exactly the listed ratings (the first one of a repeated pair) and query pairs in order, adding query-only users and items; the unobserved count and set are exactly the user-item pairs with no rating; removing a rating value removes exactly the links with that value from both sides.',
 ['inputs','histories'],
 'every observation and query file; every rating value',
 'Not tested.',
 [RC],
 [('I/O','src/recommend.c ReadRecommenderObservations, ReadQueries, BuildUnobservedSet, CountUnobserved, RemoveRatings, CreateQuery')])

prop('C35', 'Conflict scores cover every pair with its exact posterior mean',
 'For every bipartite network the conflict scorer returns one score for every pair of first-set and second-set nodes, each the posterior average predictive probability with that pair kept as observed (N samples give the plain mean of what N pairs of partitions predict), within [0,1], and leaves the network unchanged.',
 ['inputs','configurations'],
 'every small bipartite network (exact enumeration) x seeds',
 'Not tested.',
 ['src/conflict.c'],
 [('scorer','src/conflict.c AllLinkScore2State')])

# ---------------------------------------------------------------- programs, layout
prop('C36', 'The reliability and multiblock programs report every pair with its score',
 'For every network file and seed, each link-reliability program (standard, sparse, several-valued, AND, OR and degeneracy-only, Metropolis or Gibbs) exits successfully and writes exactly one score for each unordered pair of distinct nodes of the input, with observed and unobserved pairs in their own files where the format has two. The scores are the posterior averages of that model within sampling error, the same seed gives the same output and other seeds give other samples; reconstruction writes a simple network over the input nodes. Run with too few arguments a program shows its use and fails.',
 ['inputs','configurations'],
 'every adjacency file x seed x program',
 'No program is run by the tests.',
 ['reliability/main_reliability_links.c','reliability/main_reliability_links_gibbs.c','multiblock/main_reliability_links_mb.c','only_deg/main_only_degeneration_mb.c'],
 [('programs','reliability/main_*.c, multiblock/main_*.c, only_deg/main_*.c')])

prop('C37', 'The network utilities report the true properties of their input',
 'For every input file and every choice of switches, the utility programs (network and node properties, link counting, giant component, Laplacian spectrum, comparison, mutual information, randomisation, bipartite modularity weighted or not, modular networks) exit successfully, leave their input files alone and print or write values equal to those computed independently from the files; randomised and generated networks have the degrees, sizes and modules asked for and differ from seed to seed; and a program called with too few arguments shows its use and fails without touching anything.',
 ['inputs','configurations'],
 'every adjacency / partition file x program switches',
 'No program is run by the tests.',
 ['utils/main_netprop.c','utils/main_nodeprop.c','utils/main_netcompare.c','utils/main_getgiant.c','utils/main_mutualinfo.c'],
 [('programs','utils/main_*.c')])

prop('C38', 'The recommender programs print one true prediction per query, in order',
 'For every observation file, query file, K and seed, each recommender program prints, for every query and in the order given, the two labels and the predicted probability of every rating value, equal within sampling error to the exact posterior mean given the observations that are not themselves queried; the conflict program writes the score of every pair of a first and a second label that differ, once. Input files are left alone, a second run with the same seed prints the same, other seeds sample otherwise, and too few arguments show the use and fail.',
 ['inputs','configurations'],
 'every observation/query file x seed x K',
 'No program is run by the tests.',
 ['recommender/main_multi_recommend_2.c','recommender/main_multi_recommend_k.c','recommender/main_multi_recommend_k_gibbs.c','conflict/main_conflict.c'],
 [('programs','recommender/main_*.c, conflict/main_conflict.c')])

prop('C39', 'Layouts follow their dynamics and give finite, normalised coordinates',
 'For every undirected network and seed, each layout routine moves the nodes by the documented spring, charge and drag dynamics (Verlet steps; charges interact within the cutoff between neighbouring boxes) until they rest or the steps run out, and ends with finite coordinates that span [0,1] along every axis, without changing the network; potential energies and forces equal the sums over interacting pairs; every node is in exactly one box; arranging the components moves each one rigidly, only ever for the better, and leaves none overlapping; and the layout programs print the label and coordinates of every node once.',
 ['inputs','configurations'],
 'every undirected network x seeds x methods x boxes x steps and drags at which the dynamics is stable',
 'Not tested.',
 ['src/layout.c','utils/main_netlayout.c','utils/main_multinetlayout.c'],
 [('layout','src/layout.c MDGraphLayout, MDGraphLayout3D, MDGraphLayout2Dp, NormalizeCoordinates, NormalizeCoordinates3D, ArrangeComponents, CircleDistance, AssignBox, AssignBox3D, PotentialEnergy, PotentialEnergy3D, CalculateNodeForces, CalculateNodeForces3D, PrintNodeCoordinates'), ('programs','utils/main_netlayout.c, utils/main_multinetlayout.c')])

# ---------------------------------------------------------------- everywhere
prop('C40', 'Results depend on the inputs and the seed only',
 'Every routine and program is a function of its arguments, input files and seed: it never reads memory that was not set, and its answer (values, files, state of its arguments and of the generator) is the same, byte by byte, whatever the heap held before, whatever was called earlier in the process, however often it is run, and however much it is asked to print.',
 ['inputs','histories'],
 'every request the other properties generate x heap contents x call histories',
 'A test runs each routine once, on a fresh heap that is mostly zero; a stale or unset value then looks right.',
 ['src/tools.c','src/graph.c','src/missing.c','src/modules.c'],
 [('library','src/*.c'), ('programs','*/main_*.c')])

prop('C41', 'Measures keep their meaning in large networks',
 'For networks of realistic size - hubs with thousands of neighbours, tens of thousands of links, paths longer than ten thousand links, billions of shortest paths between two nodes, more than ten thousand nodes, groups and teams of tens of thousands - every measure (degrees, clustering, assortativity, distances, betweenness, components, modularity, block models, participation, mutual information, bipartite modularity) still equals its definition: no counter or product overflows and no fixed-size table is outgrown.',
 ['inputs'],
 'all networks and partitions up to the memory',
 'The tests use networks of a few dozen nodes.',
 ['src/graph.c','src/modules.c','src/bipartite.c'],
 [('measures','src/graph.c Assortativity, AverageSquaredDegree, ClusteringCoefficient2, CalculateNodeBetweenness, AveragePathLength, FPrintDistanceHistogram, GetAllConnectedSets; src/modules.c MutualInformation, BlockModel, ParticipationCoefficient; src/bipartite.c ModularityBipart')])

prop('C42', 'The legacy netcarto program writes one consistent set of true files',
 'For every network file, options and seed, given as a file, on standard input or in answer to its questions, netcarto-legacy exits successfully and writes: the network in Pajek form; a partition of all its nodes into modules, the same in modules.dat and modules.clu, with the true size and link counts of every module and the true modularity of the partition; the degree, participation coefficient and within-module degree of every node in that partition; the role of every node, the same in roles.dat and roles.clu; and the modularity, with the mean and standard deviation of the best modularity found in as many randomisations as asked for. The same seed gives the same files, other seeds and other annealing options lead to other results where several are as good, files of an earlier run are replaced, a few seeds find the best partition of small networks, the input is left alone, and input that cannot be read is refused with a message and a failing exit status.',
 ['inputs','configurations'],
 'every adjacency file x options x seeds',
 'No program is run by the tests.',
 ['netcarto/main_netcarto_legacy.c','src/modules.c'],
 [('program','netcarto/main_netcarto_legacy.c'), ('clustering','src/modules.c SACommunityIdent, CatalogRoleIdent, FPrintPartition, FPrintPajekPartitionFile')])

prop('C43', 'Nothing is kept: memory and files are released on every path',
 'For every input, malformed ones included, and every history of calls: once a routine has returned and whatever it returned (networks, partitions, bipartite networks, lists, arrays) has been released with the functions the library has for it, none of the memory the routine allocated and none of the files it opened remain, on whichever path it returned; so the same call, repeated, leaves the process no bigger than before. This holds for the readers, the measures, the randomisations, the clustering and the samplers alike.',
 ['inputs','histories'],
 'every request the other properties generate',
 'A leak changes no result; only long runs on large inputs suffer.',
 ['src/graph.c','src/modules.c','src/missing.c','src/io.c','src/bipartite.c','src/partition.c','src/layout.c'],
 [('library','src/*.c: every routine, and RemoveGraph, RemovePartition, RemoveBipart, FreePartition, FreeAdjaArray, FreeLabelDict, FreeFastLogFact, FreeFastLogChoose')])

prop('C44', 'No draw is fatal: results are valid for every sequence of random numbers',
 'Every randomised routine (model generators, randomisations, random walks, moves and whole runs of the samplers and of the annealing, block-model resampling) completes, within its memory, and returns a result that satisfies its deterministic guarantees for every sequence of numbers its generator can deliver, including sequences where the extreme draws, exactly 0 and the largest number below 1, come anywhere and repeatedly.',
 ['schedules','inputs'],
 'every sequence of 32-bit words',
 'With a fixed seed a test never meets an extreme draw: each has probability 2^-32, but long runs draw more numbers than that.',
 ['src/graph.c','src/models.c','src/bipartite.c','src/modules.c','src/partition.c','src/missing.c','src/sparse_missing.c','src/multiblock.c','src/only_deg.c','src/recommend.c','src/tools.c'],
 [('draws','every use of gsl_rng_uniform and gsl_rng_uniform_int in src/*.c'), ('choice of a destination','src/tools.c GibbsDestination')])

prop('C45', 'Input that is not in the format is refused, never misread or fatal',
 'Whatever bytes a file holds, each reader (networks, bipartite networks, edge lists, ratings and queries, lists of groups, module tables) either returns exactly what the file says or refuses it and returns nothing: a line with too few fields, a weight that is no number, a label longer than the format allows (99 bytes), a list of groups that is not ended or fewer queries than announced is refused; odd but valid text (any white space, carriage returns, further columns, bytes beyond ASCII) is read. Every program that meets such a file, a file that does not exist, or too few arguments says so and exits with an error status, without results; paths of any length work.',
 ['inputs'],
 'every byte sequence as the content of a file',
 'Tests only give well-formed files; the ways in which a file can be wrong cannot be listed.',
 ['src/graph.c','src/bipartite.c','src/io.c','src/recommend.c','src/modules.c','src/tools.c','netcarto','utils','reliability','multiblock','only_deg','recommender','conflict'],
 [('readers','src/graph.c FBuildNetwork, src/bipartite.c FBuildNetworkBipart, src/io.c EdgeListFileInput AssignNodesToModulesFromFile, src/recommend.c ReadQueries, src/modules.c FReadPartition FCreatePartition'),('programs','all main_*.c')])

prop('C46', 'The search tree behind every label table is a balanced ordered map',
 'After any sequence of insertions, look-ups and deletions the tree holds exactly the keys put in and not taken out, each under the first pointer inserted for it; a look-up or insertion tells present from absent keys, deletion takes out exactly its key, walking visits the keys in order with true depths and each inner node before, between and after its subtrees, releasing the tree hands every remaining key to the release function once, and no operation needs more than a logarithmic number of comparisons.',
 ['histories'],
 'every sequence of operations over every set of keys',
 'The tests only insert the labels of small networks.',
 ['lib/search.c'],
 [('red-black tree','lib/search.c tsearch, tfind, tdelete, twalk, tdestroy'),('users','src/graph.c FBuildNetwork, src/bipartite.c, src/io.c')])

prop('C47', 'The front end tells valid networks and counts their nodes and links',
 'For every file the reader of the graphical front end says whether it is an unweighted edge list (two fields in every line) and, if so, how many different nodes and how many different undirected links it lists, whatever the order of the ends and the white space; the file is unchanged.',
 ['inputs'],
 'every text file',
 'Not tested.',
 ['frontend/network.py'],
 [('reader','frontend/network.py read_undirected_network')])

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
if __name__ == '__main__': main()
