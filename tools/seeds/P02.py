PROPERTY = 'C11'
KIND = "primitives"
EDITS = [('primitives/src/lib.rs', '            self.into_inner().checked_div(SignedFixedPoint::accuracy())', '            self.into_inner().checked_div_euclid(SignedFixedPoint::accuracy())')]
NEEDS = 'a negative fixed point number with a fractional part'
BREAKS = 'negative amounts are rounded away from zero'
DEMO = r'''
use primitives::*; use sp_runtime::FixedPointNumber;
fn main() { let x = SignedFixedPoint::from_inner(-1_500_000_000_000_000_000); assert_eq!(x.truncate_to_inner(), Some(-1)); assert_eq!(SignedFixedPoint::from_inner(-1).truncate_to_inner(), Some(0)); }
'''
