// S16: switch_map, switch_all, exhaust_map, exhaust_all: what they hand to the subscriber of inner sources.
//@include lib_outer.vrs
//@use NEWMAP rx_core_operator_switch_map SwitchMapOperator
//@use OPMAP rx_core_operator_switch_map SwitchMapOperator Switch true
//@use NEWALL rx_core_operator_switch_all SwitchAllOperator
//@use OPALL rx_core_operator_switch_all SwitchAllOperator Switch true
//@use NEWMAP rx_core_operator_exhaust_map ExhaustMapOperator
//@use OPMAP rx_core_operator_exhaust_map ExhaustMapOperator Exhaust true
//@use NEWALL rx_core_operator_exhaust_all ExhaustAllOperator
//@use OPALL rx_core_operator_exhaust_all ExhaustAllOperator Exhaust true
} // verus!
fn main() {}
