PROPERTY = 'C11'
KIND = "primitives"
EDITS = [('primitives/src/lib.rs', '            SignedFixedPoint::checked_from_integer(\n                TryInto::<<SignedFixedPoint as FixedPointNumber>::Inner>::try_into(self).ok()?,\n            )', '            SignedFixedPoint::checked_from_integer(self as <SignedFixedPoint as FixedPointNumber>::Inner)')]
NEEDS = 'a balance within 2^67 of 2^128'
BREAKS = 'a huge balance becomes a small negative fixed point number'
DEMO = r'''
use primitives::*; use sp_runtime::FixedPointNumber;
fn main() { assert_eq!(BalanceToFixedPoint::<SignedFixedPoint>::to_fixed(u128::MAX - 4), None); assert_eq!(BalanceToFixedPoint::<SignedFixedPoint>::to_fixed(7u128), Some(SignedFixedPoint::saturating_from_integer(7))); }
'''
