// the comparison over ${RM}, after a precheck over the call stack
broadcast use id_laws;
//@include equiv.vrs
//@include precheck.vrs
