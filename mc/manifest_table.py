NA = {}
EXH = ' The implementation itself is executed (no model-to-code gap); exhaustive within the listed bounds; trusts the reference model in mc/sql.hpp.'
c('C01', 'depth-first search over every history of statements up to a depth, executed on the real engine, states deduplicated by storage layout, against a relational model', 'Worlds of one to three tables, depths 3 to 5 (thorough 5 to 6), page boundaries included.' + EXH)
c('C02', 'exhaustive enumeration of conditions x table contents executed on the real engine against a direct evaluator', 'All atoms over all types, all trees of up to three leaves, all contents of up to two or three rows, all positions over three pages.' + EXH)
c('C03', 'exhaustive enumeration of DELETE/UPDATE statements x table contents executed on the real engine against the relational model', 'As C02, with every assignment list shape.' + EXH)
c('C04', 'exhaustive enumeration of contents of two to four joined tables x join forms on the real engine against nested loops over tuples', 'All contents of up to three rows over small key domains, page-crossing sizes.' + EXH)
c('C05', 'exhaustive enumeration of table contents x grouping queries on the real engine against a partition model', 'All contents of up to four or five rows over small domains, all pairs of types, page-crossing sizes.' + EXH)
c('C06', 'exhaustive enumeration of table shapes x select lists on the real engine against projection of tuples', 'All shapes of up to three columns of six types, all column counts up to 128.' + EXH)
c('C07', 'exhaustive enumeration of result sizes x widths x match masks, stepping the real cursor', 'All row counts over three pages for all widths, all masks of nine rows.' + EXH)
c('C08', 'exhaustive enumeration of literals x column positions x column lists on the real engine, read back from storage and SELECT', 'Boundary-value literal sets per type, all column lists of five columns.' + EXH)
c('C09', 'exhaustive enumeration of arithmetic expression trees on the real engine against an evaluator', 'All trees up to the listed number of operands over boundary literals.' + EXH)
c('C10', 'exhaustive enumeration of rule violations x places x states on the real engine against the list of rules', 'Every literal kind x column, every pair of operands x operator x place, all column lists of three, all name resolutions, a catalogue of single-rule violations, every position of a bad row.' + EXH)
c('C13', 'exhaustive enumeration of CREATE TABLE statements on the real engine against the declared schema', 'All pairs of column declarations with all attribute sets, all clause positions, all column counts up to 128, up to several hundred tables.' + EXH)
c('C14', 'exhaustive operation sequences on the real row storage against a list of tuples', 'All sequences up to the listed depth from several layouts and page positions.' + EXH)
c('C15', 'explicit-state BFS over the real B-tree plus exhaustive operation sequences against an ordered-map model',
  'Exhaustive within the listed numbers of keys, degrees and sequence shapes; the implementation itself is executed, so no model-to-code gap.')
c('C16', 'exhaustive operation sequences on the real hash table against a map model',
  'Exhaustive within the listed depths, key sets and hash functions; trusts the comparison model (std::map).')
c('C17', 'exhaustive operation sequences on the real containers against std containers',
  'Exhaustive within the listed depths and element sizes.')
c('C18', 'exhaustive state enumeration of bitmaps and operations on the real code',
  'All contents up to two bytes, selected contents and all bits of longer bitmaps.')
c('C21', 'exhaustive enumeration of pairs of equivalent statements on the real engine, outcomes and table contents compared', 'Each statement of a catalogue in every spelling of every equivalence, alone and (up to the listed number) combined.' + EXH)
c('C11', 'exhaustive enumeration of statement texts executed on the real engine under ASan/UBSan in forked workers, with a process-exit, time and canary-statement monitor', 'All byte strings up to a length, all single byte edits and token edits of a statement catalogue, all token sequences up to a length, all derivations of the grammar within a number of deviations, token lengths and nesting depths around every limit.')
c('C12', 'exhaustive enumeration of statement histories and texts on the real engine with an allocation and lock ledger', 'All histories up to a depth over a statement catalogue, all texts of C11, result and row sizes over page boundaries; live allocations after every statement and after close compared with what the stored rows account for.')
c('C19', 'exhaustive fault injection: for every operation of a catalogue and every n, the n-th memory allocation of the operation fails on the real code, and outcome, content, leaks and later usability are compared', 'Every allocation of every catalogued statement, data-structure call and row/column operation fails once; one failure at a time, allocations through malloc, calloc, realloc, strdup and asprintf (not those inside the C library).', level='fault_enumeration')
c('C20', 'stateless model checking of the real engine under a controlled scheduler: every schedule of the lock operations of two to four threads on one or two databases, every memory access checked for races by vector clocks, outcomes against all serial orders', 'All schedules at synchronisation operations (and, with one preemption, at allocations) of all pairs and triples of a statement catalogue; sequential consistency; at most four threads.')
c('C22', 'exhaustive interleaving of the lives of two and three databases, and of queries with statements that run while their results are open, on the real engine against one relational model per database', 'All interleavings of two six-step lives and three two-step lives, every pair of a statement catalogue, every statement of it while the result of any query is open.' + EXH)
