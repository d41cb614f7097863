use crate::ctx::{Ctx, R};

pub fn scenario(prop: &str) -> fn(&mut Ctx) -> R {
    match prop {
        "C01" => crate::s_frame::c01,
        "C02" => crate::s_frame::c02,
        "C03" => crate::s_frame::c03,
        "C04" => crate::s_frame::c04,
        "C05" => crate::s_decode::c05,
        "C06" => crate::session::c06,
        "C07" => crate::session::c07,
        "C08" => crate::session::c08,
        "C09" => crate::s_hostile::c09,
        "C20" => crate::s_hostile::c20,
        "C13" => crate::s_gram::c13,
        "C14" => crate::s_inject::c14,
        "C15" => crate::s_seq::c15,
        "C16" => crate::s_tags::c16,
        "C17" => crate::s_store::c17,
        "C18" => crate::s_secret::c18,
        "C19" => crate::s_pure::c19,
        #[cfg(feature = "arb")]
        "C22" => crate::s_gen::c22,
        "C10" => crate::s_gram::c10,
        "C11" => crate::s_gram::c11,
        "C12" => crate::s_gram::c12,
        _ => panic!("no scenario for {prop:?}"),
    }
}

type Probe = (&'static str, fn() -> Option<String>);

/// Re-checks the recorded findings: `Some(what)` if the defect is still there.
pub fn findings(prop: &str) -> Vec<Probe> {
    use crate::findings::*;
    match prop {
        "C07" => vec![("text-announces", text_announces), ("text-bracket", text_bracket), ("referral-read", referral_read)],
        "C10" => vec![("text-bracket", text_bracket)],
        "C13" => vec![("text-announces", text_announces)],
        "C14" => vec![("text-announces", text_announces), ("text-bracket", text_bracket), ("referral-breaks-out", referral_breaks_out), ("utf8-breaks-out", utf8_breaks_out)],
        "C17" => vec![("stored-other-name", stored_other_name), ("stored-code-other", stored_code_other), ("referral-breaks-out", referral_breaks_out)],
        "C22" => vec![("text-announces", text_announces), ("referral-breaks-out", referral_breaks_out), ("utf8-breaks-out", utf8_breaks_out)],
        _ => vec![],
    }
}
