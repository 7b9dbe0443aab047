for i in ['C01','C02','C03','C04','C05','C06','C07','C11','C12','C13','C14','C15','C16','C17','C18','C19','C20','C21','C22','C23','C24','C25']: claims[i]=(AI,NOTE)
FLOW='inclusion-based points-to analysis of the Go SSA form with effect analysis of every reachable write and happens-before analysis of goroutines'
FNOTE='Every function that can be reached from the exported functions of the loading packages is analysed in every context of two call sites; library functions are modelled by what they write to and return. Not tracked: writes through reflect and unsafe, and what a library keeps of its arguments. Accesses that only a message orders are undecided if the message need not be the last.'
claims['C20']=(FLOW,FNOTE)
ORDER='order-dependence dataflow analysis of every loop over unordered elements, taint analysis of clocks, random sources, environment and memory addresses, on the Go SSA form'
ONOTE='Every function of the loading packages and the generator is analysed; calls inside such a loop are judged by their effects (points-to analysis). Undecided: sorting by a part of the elements, choosing the least or greatest by a comparison, entries of a map that may replace each other, a select between several messages.'
claims['C19']=(ORDER,ONOTE)
FAIL='path-sensitive typestate analysis of error values on the Go SSA form (with summaries of wrappers, deferred functions and reporters)'
FAILNOTE='Every call of the loading packages that returns an error, and every place where an error is made, received or recovered, is followed on every path. Exempt: functions of the parser that try to match tokens and leave the input alone if they cannot. Undecided: errors kept in lists, functions without an error result that return something else for a failure (a closure, a predicate), and failures after which another attempt is made.'
claims['C08']=(FAIL,FAILNOTE)
claims['C09']=(AI,NOTE+' Reported are faults that are certain on their path; an unknown pointer that may be nil, or an index computed from unknown numbers, is not counted. Sources are the listed texts and their cut, thinned out and garbled forms, not every text.')
claims['C10']=(AI+'; cycle detection in the exploded state graph, typestate of channels',NOTE+' Sources are the listed texts (every construct) cut off at every token, with some tokens left out, and with every token replaced by others; not every text.')
