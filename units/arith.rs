pub mod arithm {
use super::*;
// ===================== sums and products of values =====================
pub broadcast proof fn sum_two(v: Seq<Val>)
    ensures v.len() == 2 ==> #[trigger] sum_n(v) == v[0].num() + v[1].num(),
{
    if v.len() == 2 { reveal_with_fuel(sum_n, 4); assert(v.drop_last().last() == v[0]); }
}
pub broadcast proof fn sum_one(v: Seq<Val>)
    ensures v.len() == 1 ==> #[trigger] sum_n(v) == v[0].num(),
{
    if v.len() == 1 { reveal_with_fuel(sum_n, 3); }
}
pub broadcast proof fn sum_three(v: Seq<Val>)
    ensures v.len() == 3 ==> #[trigger] sum_n(v) == v[0].num() + v[1].num() + v[2].num(),
{
    if v.len() == 3 { sum_two(v.drop_last()); }
}
pub broadcast proof fn sub_two(v: Seq<Val>)
    ensures v.len() == 2 ==> sum_n(#[trigger] v.drop_first()) == v[1].num(),
{
    if v.len() == 2 { sum_one(v.drop_first()); }
}
pub broadcast proof fn prod_two(v: Seq<Val>)
    ensures v.len() == 2 ==> #[trigger] prod_n(v) == v[0].num() * v[1].num(),
{
    if v.len() == 2 { reveal_with_fuel(prod_n, 4); assert(v.drop_last().last() == v[0]); assert(1real * v[0].num() == v[0].num()) by (nonlinear_arith); }
}
pub broadcast group arith { sum_one, sum_two, sum_three, sub_two, prod_two }
pub proof fn real_mul(a: int, b: int) ensures (a as real) * (b as real) == (a * b) as real {
    assert((a as real) * (b as real) == (a * b) as real) by (nonlinear_arith);
}
} // mod arithm
pub use arithm::*;
