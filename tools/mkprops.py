import json
B='src/HybridSolver/main/algorithms/branch_and_bound.c'; BH='src/HybridSolver/main/algorithms/branch_and_bound.h'
D='src/HybridSolver/main/data_structures/'; A='src/HybridSolver/main/algorithms/'
R='src/HybridSolver/main/tsp_instance_reader.c'; M='src/HybridSolver/main/main.c'
PS='src/HybridSolver/main/problem_settings.h'
T='The tests print results of at most a handful of fixed instances and assert nothing; '
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if obs: a['observe_at']=obs
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
p('P01','The tour of a completed run is optimal',
 'For every complete weighted graph with at least three cities, a run of the solver that is not interrupted reports a Hamiltonian cycle whose cost exceeds that of the cheapest Hamiltonian cycle by at most 0.00127 times the square root of the compiled capacity. This holds in classic and in hybrid mode, whatever the scale of the weights and however many of them are equal.',
 ['inputs','configurations'],'All complete graphs with positive weights, both modes, every capacity not smaller than the graph; explored: every weight assignment over small alphabets for 3 to 7 cities, every subset of lattices, and parametric families up to 14 cities.',
 T+'no test compares the result with an optimum, and a pruning or bounding error shows on a few weight patterns in thousands.',
 [B,BH,PS],[('Held-Karp bound and pruning',B+': bound, branch_and_bound'),('fixing of variables',B+': variable_fixing'),('branching',B+': branch')],['Problem.bestSolution after branch_and_bound, output of the program'])
p('P02','On sparse graphs only existing edges are used, and absence of tours is reported',
 'For a graph in which some pairs of cities are not connected, a completed run reports a Hamiltonian cycle made of existing edges only, with the same optimality guarantee as for complete graphs, whenever such a cycle exists. If no Hamiltonian cycle exists, the run ends and reports no tour (a cycle with zero edges).',
 ['inputs','configurations'],'All graphs with missing edges (including disconnected ones, bridges and cut vertices), both modes; explored: every sparse weight assignment on 4 to 6 cities (absent as a letter of the alphabet), and larger structured sparse graphs.',
 T+'all their instances are complete graphs or are never solved.',
 [B],[('feasibility check',B+': check_feasibility'),('missing edges forbidden at the root',B+': branch_and_bound'),('nearest neighbour start tours',B+': nearest_prob_neighbour')],['Problem.bestSolution'])
p('P03','The reported solution is internally consistent',
 'Whenever a run reports a tour, the listed edges form one cycle visiting every city exactly once, the reported cost equals the sum of the weights of those edges and the best value kept by the solver, and in hybrid mode the reported probability is the mean probability of those edges (zero in classic mode). The printed report shows the same cycle as a chain of adjacent edges, the same cost, probability and counters.',
 ['inputs','histories'],'Every instance of the explored families, both modes, completed and interrupted runs; the report is parsed back for each of them.',
 T+'they never parse the report nor sum the edges.',
 [B,D+'mst.c'],[('tour taken from the closing 1-tree',B+': check_hamiltonian, bound'),('report',B+': print_problem, print_subProblem'),('mean probability',D+'mst.c: add_edge')],['standard output','Problem.bestSolution'])
p('P04','Edge probabilities only guide the hybrid search',
 'In hybrid mode, every assignment of probabilities in [0,1] to the edges leads to a tour within the same distance from the optimum as any other assignment. In classic mode the probabilities of the input have no effect: the tour, its cost and the search statistics are the same as with all probabilities zero, and the reported probability is zero.',
 ['inputs','configurations'],'All assignments of probabilities to the edges of an instance; explored: every assignment over {0,0.5,1} on 4 and 5 cities for several weight patterns, and arithmetic patterns on 6 to 12 cities, including misleading ones.',
 T+'probabilities are only used in one sort test.',
 [B,A+'kruskal.c',D+'mst.c',R],[('hybrid comparison of subproblems',B+': compare_subproblems'),('probabilistic branching order',B+': branch'),('probabilities zeroed in classic mode',R+': read_tsp_csv_file')],['Problem.bestSolution'])
p('P05','An interrupted run returns its incumbent, and says so',
 'If the time limit is found exceeded at any of the moments in which the solver looks at the clock, the run still ends normally, releases its memory and reports a valid tour whose cost is consistent, that is at least as good as the best start tour and never better than the optimum. The run is marked as interrupted if it stopped before the search was exhausted, and a run not marked as interrupted is optimal within tolerance; a later interruption never gives a worse tour. Once the limit is exceeded, at most one more subproblem is explored.',
 ['crash_points','inputs'],'Every clock observation of the run as the point where time runs out, for every instance of the explored families in both modes.',
 'The limit of ten minutes never fires in a test, and the state of the search at the interruption depends on the point.',
 [B,PS],[('time limit',B+': time_limit_reached, branch_and_bound')],['Problem.interrupted, Problem.bestSolution'])
p('P06','Runs are deterministic, independent of the past, and preserve their input',
 'Solving an instance gives the same tour, cost, statistics and report (times apart) every time: after any sequence of other instances solved in the same process, in fresh or reused memory whatever it contained. The graph given as input has the same nodes, edges, weights and probabilities after the run as before.',
 ['histories','inputs'],'All histories of up to three instances (in the same or in different problem objects) and all fill patterns of the problem memory, both modes.',
 T+'each test runs in a process of its own, so leftovers of previous runs never matter.',
 [B,D+'graph.c'],[('problem pointer and dual graph',B+': branch_and_bound, bound'),('initialisation of the problem',B+': branch_and_bound')],['Problem after branch_and_bound'])
p('P07','The compiled capacity only limits the size of the instance',
 'A solver compiled for a larger capacity than the number of cities solves the same instance with the same guarantee: it ends, uses only the cities of the instance and reports an optimal tour within the tolerance of that capacity.',
 ['configurations','inputs'],'Capacities from n to several times n for every explored instance, complete and sparse, both modes.',
 'The tests run with one capacity, and solve a single instance with fewer cities than it.',
 [B,PS],[('loops bounded by the number of nodes',B+': infer_constraints, variable_fixing, branch'),('capacity dependent tolerance and iterations',PS)],['Problem.bestSolution for several builds'])
p('P08','Solving is memory safe and leaves nothing allocated',
 'For every instance that fits the capacity, building the graph, solving it and printing the report never accesses memory out of bounds, never uses an uninitialised value and never executes undefined behaviour. After the run all dynamic memory acquired by it has been released.',
 ['inputs','configurations'],'All instances of the explored families (complete, sparse, infeasible, at and below capacity, tied and extreme weights) in both modes, under address, undefined-behaviour and memory sanitizers, and with exact accounting of the heap.',
 'The tests run without sanitizers and do not look at memory use.',
 [B,A+'prim.c',A+'kruskal.c',D+'fibonacci_heap.c',D+'mst.c',D+'graph.c',D+'b_and_b_data.c',D+'doubly_linked_list/list_functions.c'],[('fixed-size arrays of the subproblem',D+'b_and_b_data.h'),('lists of subproblems',B+': bound')])
p('P09','Bounding a subproblem never overestimates it',
 'For every subproblem given by mandatory and forbidden edges that still admits a tour cheaper than the incumbent (by more than the tolerance), evaluating its bound yields a lower bound not above the cost of its cheapest admissible tour, or finds a tour; it is never discarded. Evaluation leaves the weights of the input graph as they were, replaces the incumbent only with cheaper tours (admissible ones, if the subproblem has any), and proposes for branching only an undecided edge.',
 ['inputs','histories'],'Every subproblem reachable by mandatory/forbidden decisions (in any order) up to the explored depth, for every explored instance, start vertex and incumbent value, both modes.',
 'No test evaluates the bound of a subproblem against the tours it admits.',
 [B],[('subgradient optimisation',B+': bound'),('1-trees',B+': constrained_prim, mst_to_one_tree')],['SubProblem after bound'])
p('P10','Branching neither loses nor duplicates tours',
 'Splitting a subproblem on an undecided edge (or on one imposed since it was proposed for branching) produces at most two children: every tour admitted by the parent is admitted by exactly one of them, unless the omitted child admits none, and no child admits a tour that the parent did not. Children carry the decisions, bound and depth of their parent plus one, with fresh identifiers, and the parent and the other open subproblems are not altered.',
 ['inputs','histories'],'Every consistent constraint matrix on 4 and 5 nodes (and those reachable to a depth on 6), every undecided edge as branching edge, both modes, every order in which the children are generated.',
 'No test calls the branching step.',
 [B],[('Shutler branching',B+': branch, copy_constraints, infer_constraints')],['open list after branch'])
p('P11','Inferred constraints preserve the set of admissible tours',
 'Inference on a constraint matrix only turns undecided edges into mandatory or forbidden ones, symmetrically, in such a way that exactly the tours admissible before are admissible after, and it reports a contradiction only if no tour is admissible. A node with two mandatory edges ends with every other edge forbidden, a node with two usable edges ends with both mandatory, and a node with more than two mandatory edges or fewer than two usable ones is reported as a contradiction.',
 ['inputs'],'Every constraint matrix on 3 to 6 nodes, at capacity and below it.',
 'No test calls the inference.',
 [B],[('propagation of degree constraints',B+': infer_constraints')],['SubProblem.constraints'])
p('P12','Fixing variables never removes a tour better than the incumbent',
 'Given a subproblem with its minimum 1-tree and an incumbent value, fixing edges only decides undecided edges and keeps every admissible tour that is strictly cheaper than the incumbent: a forbidden edge belongs to none of them and a mandatory edge to all of them. The number it returns is the number of edges it decided.',
 ['inputs','histories'],'Every explored instance, start vertex, reachable subproblem and every incumbent value equal to, just above and just below the cost of a tour.',
 'No test calls it, and a wrong exclusion only matters when the excluded tour is the only optimal one.',
 [B],[('marginal and replacement costs',B+': variable_fixing, max_edge_path_1Tree')],['SubProblem.constraints'])
p('P13','The relaxation is the minimum 1-tree under the constraints',
 'For every graph, start vertex and admissible set of mandatory and forbidden edges, the relaxation computed is a 1-tree (a spanning tree on the other vertices plus two edges at the start vertex) that contains the mandatory edges, avoids the forbidden ones and has minimum cost among those. The lower bound of a subproblem that stays open after bounding is not below that cost. When no such 1-tree exists the subproblem is declared infeasible.',
 ['inputs'],'Every constraint assignment on 4 and 5 nodes for every start vertex and several weight patterns including large ones, and every weight assignment over an alphabet without constraints; both tree engines.',
 'The tests build unconstrained spanning trees of single graphs only.',
 [B],[('constrained spanning tree',B+': constrained_prim, constrained_kruskal'),('edges of the start vertex',B+': mst_to_one_tree')],['SubProblem.oneTree'])
p('P14','The cycle of a 1-tree is found exactly',
 'For every 1-tree, the search for its cycle reports exactly the edges of its only cycle, once each and in cyclic order; the 1-tree is recognised as a tour if and only if that cycle contains all vertices.',
 ['inputs'],'Every 1-tree on 3 to 7 nodes (every labelled tree, every pair of edges at the start vertex, every start vertex) with several orders of insertion of the edges.',
 'One test prints the result of the search on a single tree.',
 [B],[('depth first search',B+': dfs, check_hamiltonian')],['SubProblem.cycleEdges'])
p('P15','Both spanning tree algorithms return a minimum spanning tree',
 'On every weighted graph both algorithms return the same total cost, that of a minimum spanning tree, as a set of n-1 graph edges without cycles whose weights sum to the reported cost (and mean probability in hybrid mode). They flag the tree as valid if and only if the graph is connected.',
 ['inputs'],'Every graph on up to 5 nodes with weights over an alphabet including "absent", all two-valued weights on 6 nodes, and structured graphs up to 24 nodes; both modes.',
 'The tests print the tree of one graph each.',
 [A+'prim.c',A+'kruskal.c',D+'mst.c',D+'mfset.c',D+'fibonacci_heap.c'],[('Prim with Fibonacci heap',A+'prim.c: prim'),('Kruskal with union-find',A+'kruskal.c: kruskal')],['MST'])
p('P16','Sorting the edges is a permutation into order, with a consistent index',
 'Sorting the edges of a graph yields the same edges, in order of increasing weight and, in hybrid mode, of decreasing probability among equal weights. Afterwards the adjacency matrix locates each edge at its new position, and sorting again changes nothing.',
 ['inputs'],'Every assignment of weights (and probabilities) over small alphabets to graphs with 0 to 10 edges, plus structured orders (sorted, reversed, organ pipe, all equal, killers) up to 190 edges; both modes.',
 'Two tests sort one fixed graph and assert nothing.',
 [A+'kruskal.c'],[('quicksort with median of three',A+'kruskal.c: wrap_quick_sort, pivot_quicksort, swap')],['Graph.edges, Graph.edges_matrix'])
p('P17','The Fibonacci heap is a priority queue under every sequence of operations',
 'After any sequence of insertions, decreases and deletions, extracting returns a key of minimum value among those present, removes exactly that key and reports emptiness exactly when nothing is left. This holds for any number of keys and any shape the internal trees can take.',
 ['histories'],'Every reachable heap shape (by exhaustive state exploration) with up to 6 keys and 3 values and every operation from it, plus long directed histories: insert/extract/decrease patterns up to 100 keys, and histories that make high-degree trees as thin as possible.',
 'No test touches the heap except through one run of Prim.',
 [D+'fibonacci_heap.c'],[('consolidation, cuts',D+'fibonacci_heap.c: consolidate, extract_min, decrease_value, delete_node')],['values returned by extract_min'])
p('P18','The union-find structure represents the partition of its merges',
 'After any sequence of merges and finds, two nodes have the same representative if and only if the merges performed connect them. Creating a forest that leaves one node out gives singletons for all the others.',
 ['histories'],'Every reachable forest (exhaustive state exploration to closure) for up to 5 nodes and every merge and find from it.',
 'One test prints a forest after three merges.',
 [D+'mfset.c'],[('union by rank with path compression',D+'mfset.c: find, merge')],['representatives'])
p('P19','Lists and iterators behave as sequences',
 'After any sequence of insertions and deletions at the end or at an index, the list holds the expected sequence: its size, indexed access, links in both directions and iteration from first to last all agree, and operations beyond the end change nothing. The same holds for the list of subproblems, whose elements are copies.',
 ['histories'],'Every sequence of operations up to depth 6 or 7 from the empty list, with every index up to one past the end.',
 'No test calls the list functions directly.',
 [D+'doubly_linked_list/list_functions.c',D+'doubly_linked_list/list_iterator.c',D+'b_and_b_data.c'],[('doubly linked list',D+'doubly_linked_list/list_functions.c'),('iterator',D+'doubly_linked_list/list_iterator.c'),('list of subproblems',D+'b_and_b_data.c')])
p('P20','Open subproblems are explored best first',
 'Every subproblem generated by branching is put in the list of open ones before the first that is worse than it: one whose bound is larger by more than the tolerance or, in hybrid mode, not smaller (equal included) with a probability lower by at least 0.05. The others keep their relative order, none is lost or duplicated, and in classic mode no subproblem precedes one whose bound is smaller by more than the tolerance.',
 ['histories','inputs'],'Every sequence of up to six branchings with bounds and probabilities from an alphabet that straddles the thresholds, both modes.',
 'No test looks at the order of the open list.',
 [B,D+'b_and_b_data.c'],[('ordered insertion',B+': branch, compare_subproblems')],['open list'])
p('P21','The csv reader builds exactly the instance in the file, or rejects the file',
 'Reading a csv instance gives a graph with its cities, coordinates and exactly the pairs of positive distance as edges, with the distances and (in hybrid mode) the probabilities written in the file. A file that cannot be opened, has a malformed entry, an incomplete or too long row, more rows than cities, no cities or more cities than the capacity ends the program with failure and without out-of-bounds access.',
 ['inputs','crash_points'],'Every combination of entries over an alphabet of number formats for 3 and 4 cities, layout variants, every truncation point of a file, and every single corruption of an entry, row or size.',
 'One test reads one (incomplete) file and asserts nothing.',
 [R],[('parsing',R+': read_tsp_csv_file')],['Graph, exit status'])
p('P22','The TSPLIB reader builds the Euclidean graph of the file, or rejects the file',
 'Reading a TSPLIB file with EUC_2D coordinates gives the complete graph on its nodes whose weights are the (single precision) Euclidean distances, whatever other headers precede the coordinates and with or without the final EOF line. Files of any other edge weight type, unreadable files, malformed coordinate lines and more nodes than the capacity end the program with failure.',
 ['inputs'],'Every order and subset of header lines with both spellings of the colon, every edge weight type of TSPLIB, all coordinates from a lattice for 3 and 4 nodes, and every single-line corruption.',
 'The only test opens a file that does not exist and is known to fail.',
 [R,D+'graph.c'],[('parsing',R+': read_tsp_lib_file'),('distances',D+'graph.c: create_euclidean_graph')],['Graph, exit status'])
p('P23','Exit status zero means that the complete report was written',
 'The program exits with status zero only if the output file contains the complete report of a solved input; with a wrong number of arguments, an input that cannot be read or parsed, or an output that cannot be opened or fully written, it exits with a nonzero status. An input file that is not also named as the output is never modified.',
 ['fault_sequences','inputs'],'Every number of arguments from 0 to 4, every kind of unusable path, and a write failure after each byte of the report (as when the disk is full), both modes.',
 'No test runs the program itself, and none makes a write fail.',
 [M,R],[('output redirection and final flush',M+': main')],['exit status, output file'])
p('P24','The report and the analyzer agree',
 'From the report of every run that found a tour, completed or interrupted, the analysis script reads back the cost, probability, counters, tree levels, times and sequence of improvements that the solver computed, and counts the run as solved if and only if it was not interrupted, under the way in which its best tour was obtained.',
 ['inputs','histories'],'Reports of every run of the explored families (completed, interrupted at several points; best tour from nearest neighbour, probabilistic nearest neighbour, 1-tree or subgradient), both modes, read alone, in groups and in folders of eight with every pattern of interruptions.',
 'No test covers the script, and a change of either side of the textual interface is invisible to the compiler.',
 [B,'src/HybridSolver/results/AdjacencyMatrix/analyzer.py'],[('report',B+': print_problem, print_subProblem'),('regular expressions','src/HybridSolver/results/AdjacencyMatrix/analyzer.py: read_values')],['values returned by the script'])
p('P34','The comparison of the two modes is computed from what each run reported',
 'Given the folders of reports of both modes, the analysis computes its means, confidence intervals, percentages, p-values and log values over exactly the instances that both modes solved, lists the unresolved ones of each, and derives the improvement and cumulative profiles from the progress of all runs; the tables it writes show those numbers, with the better of each pair marked. Folders in which nothing was solved give empty statistics, not a failure.',
 ['inputs','histories'],'Pairs of folders of eight reports of real runs with every pattern of interruptions, several rotations of the instances between the modes, both modes; all numbers recomputed from what the solver knew.',
 'No test covers the script.',
 ['src/HybridSolver/results/AdjacencyMatrix/analyzer.py'],[('aggregation','src/HybridSolver/results/AdjacencyMatrix/analyzer.py'),('tables','src/HybridSolver/results/AdjacencyMatrix/analyzer.py: modify_string and the LaTeX output')],['values returned by the script','tables written'])
p('P25','The driver hands each instance to the solver unchanged',
 'For every instance of a data file and every range of instances, the driver in classic mode writes a csv file with the coordinates of the cities and their Euclidean distances, runs the solver once for each instance of the range in order, and leaves one result file for each with the report of that instance, its cities and the time taken. A range a-b covers exactly the instances a to b and a single number k the instances 1 to k. In hybrid mode the network is run before the solver on that very instance, in the smallest of the sizes 20, 50 and 100 that holds its cities (100 beyond), and the solver used is always the one built for the number of cities and the mode of the run, whatever was run in the tree before.',
 ['inputs','histories'],'Instance files with every subset of a lattice of points, every range over them, several numbers of cities; the solver as built by the driver itself.',
 'No test runs the driver.',
 ['src/HybridSolver/main/HybridSolver.py'],[('driver','src/HybridSolver/main/HybridSolver.py: hybrid_solver, get_instance, adjacency_matrix')],['csv and result files'])
p('P26','The probability matrix of the network reaches the solver intact',
 'For an instance with as many cities as the network, the csv file written holds for every pair of cities the distance and the probability computed by the network, in the layout the solver reads. When the instance is smaller than the network, each pair gets the largest of its own probability and of those with the stand-ins of the second city; when larger, the cities keep the numbers they have in the instance, and those the network has not seen get their true distances and probability zero.',
 ['inputs'],'Every size of instance from 2 to 6 against networks of 3 to 12 nodes, with every assignment of probabilities (from very small to one) over small matrices and parametric ones beyond.',
 'No test runs the Python side.',
 ['src/HybridSolver/main/graph-convnet-tsp/main.py'],[('matrix file','src/HybridSolver/main/graph-convnet-tsp/main.py: write_adjacency_matrix')],['csv file'])
p('P27','Instances are padded to the size of the network without moving any city',
 'Padding an instance ends and adds exactly the missing number of cities, each within 1e-13 of the city it stands for (times the coordinate where that is larger than one), taken in turn from the first, all distinct, and leaves the given cities unchanged and first. The padded file has one line with the coordinates of all the cities and a closed tour over all of them.',
 ['inputs','histories'],'Every instance size from 2 to 9 against every network size up to 20 (also several times larger), every outcome of the first random choices of the offsets.',
 'No test runs the Python side.',
 ['src/HybridSolver/main/graph-convnet-tsp/main.py'],[('padding','src/HybridSolver/main/graph-convnet-tsp/main.py: add_dummy_cities, get_instance, create_temp_file')],['temporary instance file'])
p('P28','Search statistics and progress lines are truthful',
 'After every run the number of explored nodes never exceeds that of generated nodes, the best tour stems from a generated node at a level not beyond the deepest one reported, and the label of the best tour says how it was obtained. The progress lines list strictly decreasing costs of improving tours, with times that never decrease, and the last one is the reported cost; without progress lines the reported tour is the start tour.',
 ['inputs','histories'],'Every run of the explored families, completed and interrupted, both modes, with a virtual clock that advances at every observation.',
 'No test looks at statistics or progress lines, which feed the published tables.',
 [B],[('counters and progress',B+': bound, branch, branch_and_bound')],['standard output, Problem counters'])
p('P29','The search starts from the best nearest neighbour tour and the best start vertex',
 'The start tour is the cheapest among the nearest neighbour tours from every city and, in hybrid mode, also among the tours that follow the most probable edge from every city. The start vertex chosen is one whose 1-tree bound is the largest up to the tolerance; in hybrid mode no vertex with the same bound has a 1-tree that is more probable by 0.05 or more.',
 ['inputs'],'Every weight assignment over small alphabets (complete and sparse) with distinct and tied weights, every assignment of probabilities for a few of them, and parametric families to 12 cities; both modes.',
 'No test checks the start tour or the start vertex.',
 [B],[('start tours',B+': nearest_prob_neighbour'),('start vertex',B+': find_candidate_node')],['Problem after find_candidate_node; tour of a run interrupted at once'])
p('P30','Graphs are built as described by their lists of nodes and edges',
 'A graph built from a list of nodes and a list of edges has exactly those nodes and edges with their weights and probabilities, symmetric adjacency, neighbour lists without repetitions and a cost equal to the sum of the weights. A Euclidean graph has every pair of nodes as an edge with their distance, and printing a graph or a tree lists each edge once with its end nodes and values.',
 ['inputs'],'Every simple graph on up to 5 nodes with every orientation pattern and several weights, every placement of 3 and 4 points on a lattice, sizes up to 24 nodes.',
 'Three tests print three graphs.',
 [D+'graph.c',D+'mst.c'],[('construction',D+'graph.c: create_graph, create_euclidean_graph'),('printing',D+'graph.c: print_graph; '+D+'mst.c: print_mst')],['Graph, standard output'])
p('P31','The result does not depend on the spanning tree engine',
 'A solver configured to compute its spanning trees with the other of the two available algorithms gives the same guarantees: valid consistent tours, optimal within tolerance, on complete and sparse graphs, without memory errors.',
 ['configurations','inputs'],'Every instance of a selection of the families of the optimality checks, both modes, both engines.',
 'Only the default engine is compiled by the tests.',
 [PS,B,A+'kruskal.c',D+'mfset.c'],[('choice of the engine',PS+': PRIM'),('constrained Kruskal',B+': constrained_kruskal')],['Problem.bestSolution'])
p('P32','Instance files are converted for the exact reference solver without alteration',
 'Converting a file of Euclidean coordinates for the reference solver writes the number of nodes and the full matrix of their Euclidean distances, row by row; converting a TSPLIB file writes its distance matrix as loaded.',
 ['inputs'],'All placements of 2 to 4 points on a lattice, header variants, and all small integer matrices.',
 'No test runs the converter.',
 ['src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'],[('conversion','src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py: convert, convert_custom_euclidean')],['dat file'])
p('P33','The network sees the instance in the file, distances and tour included',
 'For every line of a data file, the batch prepared for the network holds its coordinates, the matrix of their Euclidean distances, the connections of the requested number of nearest neighbours, and the tour of the line as edge and node targets with its length. Every line is delivered exactly once when the batch size divides the file, and at most once otherwise; the tour helpers agree on the length of a tour in all its representations.',
 ['inputs'],'All tours of 4 and 5 nodes over several placements, all batch sizes, all numbers of neighbours, all orders of delivery.',
 'No test runs the Python side.',
 ['src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py','src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py'],[('batches','src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py: GoogleTSPReader'),('tour helpers','src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py')],['batches'])
p('P35','Training data files are generated and split without loss',
 'Generating training data writes one line for each sample with exactly the coordinates handed to the exact solver and the tour it returned, closed and counted from one. Splitting a data file puts its first lines, as many as asked for, in the validation file and all the others in the training file, in their order and unchanged, whatever was in those files before.',
 ['inputs'],'Every number of lines up to six with every size of the validation part up to beyond it, with and without final newline, default name and existing files; every tour of 3 and 4 cities returned by the exact solver.',
 'No test runs the scripts.',
 ['src/HybridSolver/main/graph-convnet-tsp/data/split_train_val.py','src/HybridSolver/main/graph-convnet-tsp/data/generate_tsp_concorde.py'],[('split','src/HybridSolver/main/graph-convnet-tsp/data/split_train_val.py'),('generation','src/HybridSolver/main/graph-convnet-tsp/data/generate_tsp_concorde.py')],['data files'])
p('P36','Branching is done on the edge the iterations agree least about',
 'When a bounded subproblem stays open, the edge it proposes for branching is an undecided edge of the 1-tree that gave its bound, and no other undecided edge of that 1-tree is in a number of the 1-trees of the last ten subgradient iterations that is nearer to five. In hybrid mode, none that is in the same number of them has a higher probability.',
 ['inputs','histories'],'Every subproblem given by mandatory/forbidden decisions on 4 and 5 cities and by the decisions on a few edges on 6 to 8, every start vertex and several incumbents, both modes.',
 'No test looks at the edge chosen; a wrong choice still leads to the optimum.',
 [B],[('choice of the edge to branch',B+': bound')],['SubProblem.edge_to_branch after bound'])
NET='src/HybridSolver/main/graph-convnet-tsp/'
p('P37','The network computes its documented equations and ignores city labels',
 'For every instance the predictions are those of a residual gated graph convolutional network: embedded coordinates, distances and neighbour tags; in every layer edge features convolved from the edge and both end nodes, gated mean or sum aggregation of node features over the neighbours, batch normalisation, rectification and residual; a classifier on the edges. The loss is the class-weighted cross entropy. Relabelling the cities relabels the predictions and leaves the loss unchanged, the order of the instances of a batch does not matter, and settings in a file replace the default ones and no others.',
 ['inputs','configurations'],'All relabellings of up to 4 cities (some of 5 and 6), depths 1 to 3, both aggregations, several patterns of weights, batches of one to three, all targets of 3 cities.',
 'No test runs the network.',
 [NET+'models/gcn_layers.py',NET+'models/gcn_model.py',NET+'utils/model_utils.py',NET+'config.py'],[('layers',NET+'models/gcn_layers.py'),('network',NET+'models/gcn_model.py: ResidualGatedGCNModel.forward'),('loss',NET+'utils/model_utils.py: loss_edges'),('settings',NET+'config.py')],['predictions, loss'])
p('P38','Beam search returns valid tours, the best that its beam holds',
 'For predictions with probabilities strictly between 0 and 1 (given as log-probabilities), the decoding returns for every instance a tour that starts at the requested city and visits every city exactly once, with the highest probability among the paths that a beam search of the same width keeps. The variant that takes distances into account returns one of those paths, and none of them closes into a shorter tour. The edge errors are the percentages of wrong predictions over all edges, over the edges of the tour, and over those of the tour or predicted.',
 ['inputs'],'Every matrix of probabilities of 3 cities over an alphabet, parametric ones of 4 to 6 cities, beam widths from 1 beyond the number of tours, fixed and random starts, batches.',
 'No test runs the decoding.',
 [NET+'utils/beamsearch.py',NET+'utils/model_utils.py'],[('beam search',NET+'utils/beamsearch.py: Beamsearch'),('decoding',NET+'utils/model_utils.py: beamsearch_tour_nodes, beamsearch_tour_nodes_shortest'),('errors',NET+'utils/model_utils.py: edge_error')],['tours'])
p('P39','The exact reference script reports every instance of the file',
 'Solving a data file with the exact reference solver hands it the coordinates of every line in their order, with or without a tour at the end of the line, and writes for each the tour, running time and number of nodes that it returned with the Euclidean length of the closed tour; the means printed are those of the values written.',
 ['inputs'],'Every tour of 3 and 4 cities, files of one to three lines of equal and different lengths, with and without tours and final newline.',
 'No test runs the script.',
 [NET+'data/pyconcorde_solver.py'],[('reading and reporting',NET+'data/pyconcorde_solver.py: create_instances, run')],['results.txt, standard output'])
p('P40','The integer program of the exact reference admits exactly the tours',
 'For every number of cities, an integer assignment to the edge variables of the model can be completed to a feasible solution if and only if the chosen edges (other than those from a city to itself) form one cycle through all cities; every such tour, in either direction and from whichever city, is feasible; and the quantity minimised is the sum of the costs of the chosen edges in the matrix that the data file provides.',
 ['inputs'],'All 0/1 matrices up to 5 cities, all successor and predecessor functions of 5 and 6, all permutations of 7 and 8, larger rotations and subtours; symmetric and asymmetric costs.',
 'The model is run by hand with a commercial solver.',
 ['src/CplexSolver/TSPmtz.mod','src/CplexSolver/Data/gr17.dat'],[('model','src/CplexSolver/TSPmtz.mod')],['feasible assignments, objective'])
p('P41','Subproblems that cannot improve the incumbent are pruned, the others split',
 'A subproblem below the root whose inherited bound is not smaller than the cost of the incumbent by more than the tolerance is closed without being explored and without touching the incumbent. A subproblem stays open after bounding only if its bound, and with it the cost of its minimum 1-tree, is smaller than the cost of the incumbent by more than the tolerance. Every child decides more edges than its parent did when it was taken, and a run explores exactly the subproblems reached by repeatedly taking the first open one, bounding it and, if it stays open, fixing edges and splitting it, until none is left or time is over.',
 ['inputs','histories'],'Every subproblem given by mandatory/forbidden decisions on 3 to 6 cities, start vertices, incumbents and inherited bounds around the tolerance; whole searches on all graphs of small families and on structured ones up to 40 cities, both modes.',
 'A search that does not prune, or prunes by another value, still returns the optimum on the small instances of a test.',
 [B],[('pruning',B+': bound'),('search loop',B+': branch_and_bound, branch')],['SubProblem.type and value after bound','Problem.exploredBBNodes, generatedBBNodes'])
NM='src/HybridSolver/main/graph-convnet-tsp/main.py'
NU='src/HybridSolver/main/graph-convnet-tsp/utils/'
p('P42','Plots and neighbour ranks show what the data and the predictions hold',
 'For every batch and every choice of its instances, one figure is drawn for each chosen instance: its cities at their coordinates with the first one marked, its connections, the tour of the target in red under its length, every directed edge predicted with a probability above one quarter in the colour of that probability and, after beam search, the decoded tour in red under its length. The largest neighbour rank found for a data set is that of the tour edge of largest rank among all its batches.',
 ['inputs'],'Batches of 1 to 3 (4) instances of 3 to 50 cities, every ordered choice of the instances, both kinds of figures; data files of 1 to 12 lines in every order and batch size.',
 'A figure is looked at, not asserted, and the rank is computed once for a training set.',
 [NU+'plot_utils.py',NU+'graph_utils.py'],[('figures',NU+'plot_utils.py: plot_predictions, plot_predictions_beamsearch, plot_tsp, plot_tsp_heatmap'),('ranks',NU+'graph_utils.py: get_max_k')],['what is drawn on which axes','the rank returned'])
p('P43','The hybrid probabilities are those of the trained network of the requested size',
 'For every instance, size of network and content of the folder of settings and checkpoints, the probabilities written for the solver are those that the equations of the network give with the settings of the requested size (completed by the defaults) and the parameters of the best checkpoint of the experiment that these settings name, for the cities, distances and neighbours of the instance. They do not depend on earlier runs in the same folder, nor on the order in which the cities are listed, where the instance has the size of the network.',
 ['inputs','histories'],'Every sequence of up to three runs over a pool of six (nine) combinations of cities and network sizes with three sets of settings; every order of up to 5 cities, affine ones of 7 and 20; instances of up to 60 cities, networks of up to 50 nodes.',
 'The checks of the network compare one prediction by eye; the settings, the checkpoint and the network meet only when the program runs.',
 [NM,NU+'google_tsp_reader.py'],[('main',NM+': main, compute_prob, write_adjacency_matrix'),('settings','src/HybridSolver/main/graph-convnet-tsp/config.py'),('network','src/HybridSolver/main/graph-convnet-tsp/models/gcn_model.py')],['the csv file for the solver'])
DR='src/HybridSolver/main/HybridSolver.py'
p('P44','Failed or interrupted runs of the driver never pass for results',
 'However a run of the driver fails - cmake, make, the network or the solver fails, cannot be started, is interrupted or is killed with its output missing, empty or cut off, or the driver itself dies at any of its effects - a result file of an instance of the run holds afterwards what it held before, or the report of that very instance, whole or cut off, with no cities but its own; never a complete report for an instance on which the solver did not succeed. After a failure of cmake, make or the network, or an interruption, the driver starts nothing further and ends with an error, so that no solver built for another run and no probabilities of another instance are used. Nothing but the files of the run is touched, and a later run without faults gives the same reports as on a clean tree and leaves no temporary instance.',
 ['faults','crash points','histories'],'Six runs of 1 to 3 instances, both modes, on clean trees and on trees with the results of another data set; one fault at every point, then any of the runs; two faults at every pair of points of the same run (thorough: of any two runs of the same size and mode), then a run.',
 'The driver is never tested, and failures at a chosen point least of all.',
 [DR],[('driver',DR+': hybrid_solver, build_c_program, create_temp_file')],['result files','processes started','exit status','files of the tree'])
p('P45','From the data file to the result: a shortest tour of each instance in both modes',
 'For every data file of instances with at least three cities in the plane, the driver in classic and in hybrid mode (whatever the probabilities that the network gives) ends without an error and leaves for each instance of the range a result with a closed tour that visits every city of that instance once, whose reported cost is its Euclidean length and exceeds that of a shortest tour by no more than the tolerance of the solver (0.00127 times the square root of the number of cities). The probabilities used in hybrid mode lie between zero and one, not all zero, and the cities listed are those of the instance.',
 ['inputs','configurations','histories'],'Every set of 3 to 6 (7) points of a lattice at three scales and positions, in varying orders; every order of four cities; cities in the same place; parametric and convex instances up to 101 (103) cities, so that all three sizes of networks, padding and clustering are used; the modes one after the other in the same tree.',
 'The parts are never run together in a test: the formats between them, the choice of network and build options and the numbering of cities meet only here.',
 [DR,NM,'src/HybridSolver/main/main.c'],[('driver',DR+': hybrid_solver'),('network program',NM+': main'),('solver','src/HybridSolver/main/main.c')],['result files','csv files'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
