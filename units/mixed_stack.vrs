//@for MODE in stack
//@include mixed.vrs
//@done
