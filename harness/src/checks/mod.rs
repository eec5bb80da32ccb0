use crate::core::Property;

macro_rules! properties {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Property> { vec![$($m::property()),*] }
    }
}

properties! { c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27 }

/// The checks that run in an unprivileged process.
pub fn remote(name: &str, case: serde_json::Value, cx: &mut crate::core::Cx) -> crate::core::Outcome {
    fn on<C: serde::de::DeserializeOwned>(case: serde_json::Value, cx: &mut crate::core::Cx, check: fn(&C, &mut crate::core::Cx) -> crate::core::Outcome) -> crate::core::Outcome {
        check(&serde_json::from_value(case).expect("case"), cx)
    }
    match name {
        "c18" => on(case, cx, c18::inside),
        "c18-threads" => on(case, cx, c18::inside_threads),
        "c19" => on(case, cx, c19::inside),
        _ => panic!("no remote check {name}"),
    }
}
