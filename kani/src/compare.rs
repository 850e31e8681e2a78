//! C25: the comparison traits at f64 and f32, bit precise.
use cavalier_contours::core::traits::*;

macro_rules! laws {
    ($t:ty, $m:ident) => {
        mod $m {
            use super::*;
            fn any() -> $t {
                let a: $t = kani::any();
                kani::assume(a.is_finite());
                a
            }
            fn any_eps() -> $t {
                let e = any();
                kani::assume(e > 0.0);
                e
            }
            #[kani::proof]
            fn equality() {
                let (a, b, e) = (any(), any(), any_eps());
                assert!(a.fuzzy_eq_eps(b, e) == ((a - b).abs() < e), "fuzzy equality is a distance below the epsilon");
            }
            #[kani::proof]
            fn equality_symmetric() {
                let (a, b, e) = (any(), any(), any_eps());
                assert!(a.fuzzy_eq_eps(b, e) == b.fuzzy_eq_eps(a, e), "fuzzy equality is symmetric");
            }
            #[kani::proof]
            fn equality_reflexive() {
                let (a, e) = (any(), any_eps());
                assert!(a.fuzzy_eq_eps(a, e), "fuzzy equality is reflexive");
                assert!(a.fuzzy_eq_zero_eps(e) == (-e < a && a < e), "fuzzy zero is a magnitude below the epsilon");
            }
            #[kani::proof]
            fn equality_default() {
                let (a, b) = (any(), any());
                assert!(<$t>::fuzzy_epsilon() == 1.0e-8, "default epsilon");
                assert!(a.fuzzy_eq(b) == ((a - b).abs() < 1.0e-8), "default epsilon is used");
                assert!(a.fuzzy_eq_zero() == (a.abs() < 1.0e-8), "default epsilon is used");
            }
            #[kani::proof]
            fn order() {
                let (a, b, e) = (any(), any(), any_eps());
                assert!(a.fuzzy_gt_eps(b, e) == (a + e > b), "fuzzy greater is greater within the epsilon");
                assert!(a.fuzzy_lt_eps(b, e) == (a < b + e), "fuzzy less is less within the epsilon");
            }
            #[kani::proof]
            fn order_weaker() {
                let (a, b, e) = (any(), any(), any_eps());
                assert!(!(a > b) || a.fuzzy_gt_eps(b, e), "greater is fuzzy greater");
                assert!(!(a < b) || a.fuzzy_lt_eps(b, e), "less is fuzzy less");
            }
            #[kani::proof]
            fn range() {
                let (a, b, c, e) = (any(), any(), any(), any_eps());
                assert!(a.fuzzy_in_range_eps(b, c, e) == (a + e > b && a < c + e), "range test");
            }
            #[kani::proof]
            fn order_default() {
                let (a, b, c) = (any(), any(), any());
                assert!(a.fuzzy_gt(b) == (a + 1.0e-8 > b) && a.fuzzy_lt(b) == (a < b + 1.0e-8), "default epsilon is used");
                assert!(a.fuzzy_in_range(b, c) == (a + 1.0e-8 > b && a < c + 1.0e-8), "default epsilon is used");
            }
            #[kani::proof]
            fn constants() {
                assert!(<$t as Real>::two() == 2.0 && <$t as Real>::four() == 4.0, "constants");
                assert!((<$t as Real>::pi() - 3.14159265358979).abs() < 1e-6 && <$t as Real>::tau() == 2.0 * <$t as Real>::pi(), "constants");
            }
        }
    };
}
laws!(f64, at_f64);
laws!(f32, at_f32);
