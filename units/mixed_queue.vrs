//@for MODE in queue
//@include mixed.vrs
//@done
