//! Errors: whatever an operation returns is shown (Display, Debug, and so with each source).
use crate::{checks, comb, extract, fee, finalize, lock, pairs, roles, sighash, sign, sym, text, wire};

macro_rules! shown { ($($n:ident = $m:ident::$f:ident $t:literal)*) => { harnesses! { $(fn $n() { sym::show_errors(); sym::thin($t); $m::$f() })* } } }
shown! {
    h_err_pair = pairs::h_pair_form 3
    h_err_pair0 = pairs::h_pair0_form 3
    h_err_dup = wire::h_dup 3
    h_err_dup0 = wire::h_dup0 3
    h_err_mand = wire::h_mand 3
    h_err_mand_form = wire::h_mand_form 3
    h_err_mand0 = wire::h_mand0 3
    h_err_counts = wire::h_counts 3
    h_err_magic = wire::h_magic 0
    h_err_comb = comb::h_comb_diff 3
    h_err_comb0 = comb::h_comb_diff0 4
    h_err_xpub = comb::h_comb_xpub 4
    h_err_fee2 = fee::h_fee2 0
    h_err_fee0 = fee::h_fee0 0
    h_err_cap2 = fee::h_cap2 4
    h_err_cap0 = fee::h_cap0 4
    h_err_lock = lock::h_lock 0
    h_err_extract = extract::h_extract2 0
    h_err_create = extract::h_create0 0
    h_err_flags = roles::h_flags 0
    h_err_sequence = roles::h_set_sequence 0
    h_err_sighash2 = sighash::h_sighash2 4
    h_err_sighash0 = sighash::h_sighash0 4
    h_err_ty = sighash::h_ty 0
    h_err_sign2 = sign::h_sign2 0
    h_err_sign0 = sign::h_sign0 0
    h_err_sign0_tr = sign::h_sign0_tr 0
    h_err_checks = checks::h_checks0 0
    h_err_fin2 = finalize::h_fin2 0
    h_err_fin0 = finalize::h_fin0 0
    h_err_fin_types = finalize::h_fin_types 0
    h_err_text = text::h_text 0
}
