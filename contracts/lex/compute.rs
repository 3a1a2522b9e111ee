/// the table, and the checks that Verus evaluates on it
pub mod lextab {
use ::vstd::prelude::*;
use crate::sh::*;
use crate::lexer::*;
//@table
/// (a module of its own: what a module contains is given to the solver with every query)
pub mod comp {
use ::vstd::prelude::*;
use crate::sh::*;
use crate::lexer::*;
/// the first byte of a token: line breaks, control characters, delimiters, escapes
#[verifier::spinoff_prover] pub proof fn lemma_first() ensures rootck(0, 248), one(root()), 0 <= root() < nst(), bs_q() != cr_q() {
    assert(rootck(0, 248)) by (compute_only);
    assert(one(root()) && 0 <= root() && root() < nst()) by (compute_only);
    assert(bs_q() != cr_q()) by (compute_only);
}
/// every state
#[verifier::spinoff_prover] pub proof fn lemma_states() ensures ckr(0, nst()) { assert(ckr(0, nst())) by (compute_only); }
/// the words
#[verifier::spinoff_prover] pub proof fn lemma_names_0() ensures wcks(part(0), part(1)) { assert(wcks(part(0), part(1))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_names_1() ensures wcks(part(1), part(2)) { assert(wcks(part(1), part(2))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_names_2() ensures wcks(part(2), part(3)) { assert(wcks(part(2), part(3))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_names_3() ensures wcks(part(3), part(4)) { assert(wcks(part(3), part(4))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_names_4() ensures wcks(part(4), part(5)) { assert(wcks(part(4), part(5))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_names_5() ensures wcks(part(5), part(6)) { assert(wcks(part(5), part(6))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_keys() ensures wcks(part(6), part(7)) { assert(wcks(part(6), part(7))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_tzgeo() ensures wcks(part(7), part(8)) { assert(wcks(part(7), part(8))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_frame() ensures wcks(part(8), part(9)) { assert(wcks(part(8), part(9))) by (compute_only); }
#[verifier::spinoff_prover] pub proof fn lemma_ext() ensures wcks(part(9), part(10)) { assert(wcks(part(9), part(10))) by (compute_only); }
/// groups
#[verifier::spinoff_prover] pub proof fn lemma_far() ensures fars(0, -1), rootfar() {
    assert(fars(0, -1)) by (compute_only);
    assert(rootfar()) by (compute_only);
}
}
pub use comp::*;
}
