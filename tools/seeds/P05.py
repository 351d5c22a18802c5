PROPERTY = 'C11'
KIND = "primitives"
EDITS = [('primitives/src/lib.rs', '        .map_err(|_| serde::de::Error::custom("Parse from string failed"))', '        .or_else(|_| s.trim_end_matches(|c: char| !c.is_ascii_digit()).split(\'.\').next().unwrap_or("").parse::<T>())\n        .map_err(|_| serde::de::Error::custom("Parse from string failed"))')]
NEEDS = 'an amount in JSON with a fractional part or trailing text'
BREAKS = 'text that is no amount is read as one'
DEMO = r'''
use primitives::*;
fn main() { assert!(serde_json::from_str::<BalanceWrapper<Balance>>("{\"amount\":\"12.5\"}").is_err()); assert_eq!(serde_json::from_str::<BalanceWrapper<Balance>>("{\"amount\":\"12\"}").unwrap().amount, 12); }
'''
