//@def KIND=LazyVecStack
//@def RM=RecurStack
//@def RMOD=wide_safe::recursion::stack
//@for DFS in true
//@include mixed_stack.vrs
//@done
