%module eval_iastack eval/src/eval_iastack.rs
%head
use crate::eval_prims::*;
use crate::level_tree::Rng;
use crate::archive_stack::AStack as IAStack;
%type EvalIAStack
%fn EvalIAStack::new params coord
    ensures res.stack.wf(), res.stack.elems().len() == 0, res.stack.empty(), res.coord == coord,
%fn "EvalIAStack as CreateEmpty::inc_empty" params _datagauge,_namegauge,coord,_rng
    ensures res.1.stack.wf(), res.1.stack.elems().len() == 0, res.1.stack.empty(), res.1.coord == *coord,
