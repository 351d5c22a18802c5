PROPERTY = 'C10'
KIND = "primitives"
EDITS = [('primitives/src/lib.rs', '                if x > y {', '                if x > y && !matches!((x, y), (LpToken::StableLpToken(_), LpToken::StableLpToken(_))) {')]
NEEDS = 'a share of two stable pool shares, the larger one first'
BREAKS = 'one pair of stable pool shares gets two identifiers'
DEMO = r'''
use primitives::*;
fn main() { let (a, b) = (CurrencyId::StableLpToken(300), CurrencyId::StableLpToken(4)); let mut x = CurrencyId::join_lp_token(a, b).unwrap(); let mut y = CurrencyId::join_lp_token(b, a).unwrap(); x.sort(); y.sort(); assert_eq!(x, y);
 let (a, b) = (CurrencyId::StableLpToken(3), CurrencyId::Token(KSM)); let mut x = CurrencyId::join_lp_token(a, b).unwrap(); let mut y = CurrencyId::join_lp_token(b, a).unwrap(); x.sort(); y.sort(); assert_eq!(x, y); }
'''
