//@def KIND=LazyVecQueue
//@def RM=RecurQueue
//@def RMOD=deep_safe::recursion::queue
//@for DFS in false
//@include mixed_queue.vrs
//@done
