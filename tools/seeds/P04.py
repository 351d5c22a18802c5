PROPERTY = 'C10'
KIND = "primitives"
EDITS = [('primitives/src/lib.rs', '            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),\n            _ => return None,\n        };\n        Some(CurrencyId::LpToken(lp_token_0, lp_token_1))', '            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),\n            CurrencyId::LendToken(lend_token_id) if !currency_id_0.is_lp_token() => LpToken::ForeignAsset(lend_token_id),\n            _ => return None,\n        };\n        Some(CurrencyId::LpToken(lp_token_0, lp_token_1))'), ('primitives/src/lib.rs', '            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),\n            _ => return None,\n        };\n        let lp_token_1', '            CurrencyId::StableLpToken(stable_pool_id) => LpToken::StableLpToken(stable_pool_id),\n            CurrencyId::LendToken(lend_token_id) if currency_id_1.is_lend_token() => LpToken::ForeignAsset(lend_token_id),\n            _ => return None,\n        };\n        let lp_token_1')]
NEEDS = 'joining two lend tokens (one alone is still refused)'
BREAKS = 'two lend tokens give the share of two unrelated foreign assets'
DEMO = r'''
use primitives::*;
fn main() { assert_eq!(CurrencyId::join_lp_token(CurrencyId::LendToken(1), CurrencyId::LendToken(2)), None); assert_eq!(CurrencyId::join_lp_token(CurrencyId::LendToken(1), CurrencyId::Token(KSM)), None); }
'''
