use crate::run::{Suite, Tier};

macro_rules! suites {
    ($($m:ident $id:literal),* $(,)?) => {
        $(pub mod $m;)*
        pub fn suite(id: &str, tier: Tier) -> Option<Suite> {
            Some(match id {
                $($id => $m::suite(tier),)*
                _ => return None,
            })
        }
    };
}

suites! {
    c01 "C01",
    c02 "C02",
    c03 "C03",
    c04 "C04",
    c05 "C05",
    c06 "C06",
    c07 "C07",
    c08 "C08",
    c09 "C09",
    c10 "C10",
    c11 "C11",
    c12 "C12",
    c13 "C13",
    c14 "C14",
    c15 "C15",
    c16 "C16",
    c17 "C17",
    c18 "C18",
    c20 "C20",
}

/// Scale a count by tier.
pub fn t(tier: Tier, quick: u64, thorough: u64) -> u64 {
    match tier {
        Tier::Quick => quick,
        Tier::Thorough => thorough,
    }
}
