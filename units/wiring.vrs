// which recursion mode the function is wired to
//@ifeq WRM RecurQueue
//@def MODE=queue
//@def DFS=false
//@def KIND=LazyVecQueue
//@def RM=RecurQueue
//@def RMOD=deep_safe::recursion::queue
//@fi
//@ifeq WRM RecurStack
//@def MODE=stack
//@def DFS=true
//@def KIND=LazyVecStack
//@def RM=RecurStack
//@def RMOD=wide_safe::recursion::stack
//@fi
//@ifeq WRM CallStack
//@if STACK
//@fail ${FN}::${F} is wired to the call stack
//@fi
//@def MODE=callstack
//@def DFS=true
//@fi
//@ifnot MODE
//@fail ${FN}::${F} is wired to the recursion mode ${WRM}
//@fi
