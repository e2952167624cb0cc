//! C18: fixed-point operations, conversions and casts against exact rationals.
use crate::cover::*;
use crate::num::*;
use crate::rng::Rng;
use decimal::*;
use math::types::{fee_growth::*, fixed_point::*, liquidity::*, percentage::*, seconds_per_liquidity::*, sqrt_price::*, token_amount::*};
use num_traits::{One, Zero};

type R = Result<(), String>;
pub struct J<'a> { pub c: &'a mut Cover, pub ty: &'static str, pub args: [N; 2], pub extra: u32 }
impl J<'_> {
    /// `exact`: what the operation means (None: undefined); `must`: everything fits the documented widths.
    pub fn check(&mut self, op: &'static str, got: Option<N>, exact: Option<N>, bits: u32, must: bool) -> R {
        let ok = got.is_some();
        self.c.case((op, self.ty, mag(&self.args[0]), mag(&self.args[1]), self.extra, ok));
        self.c.count(if ok { "returned" } else { "failed" });
        let (args, ty, ex) = (&self.args, self.ty, self.extra);
        let say = |m: String| Err(format!("{ty} {op}({}, {}; {ex}): {m}", args[0], args[1]));
        match (got, exact) {
            (Some(g), Some(e)) if g == e && fits(&e, bits) => { self.c.sample(|| format!("{ty} {op}({}, {}) = {g}", args[0], args[1])); Ok(()) }
            (Some(g), Some(e)) => say(format!("returned {g}, exact value is {e} ({bits} bits available)")),
            (Some(g), None) => say(format!("returned {g} where there is no result")),
            (None, Some(e)) if must && fits(&e, bits) => say(format!("failed although the result {e} and every intermediate fit")),
            (None, _) => Ok(()),
        }
    }
}
fn big<T: Decimal>(t: T) -> N where T::U: B { t.get().big() }

macro_rules! one { ($v:ident, ($A:ident $sa:literal $ua:ident $ba:ident), ($Bt:ident $sb:literal $ub:ident $bb:ident)) => { $v.push((|r: &mut Rng, c: &mut Cover| -> R {
    const U: u32 = <$ua as B>::BITS; const W: u32 = <$ba as B>::BITS; const UB: u32 = <$ub as B>::BITS;
    let one = p10($sb);
    let a = operand(r, U);
    let cap = *r.pick(&[U, U, W, U + 3 * $sb as u32, 64, 128, 192, 256, 320, 384, 448]);
    let b = partner(r, &a, UB, cap, &one);
    let (x, y) = ($A::new(<$ua as B>::of(&a)), $Bt::new(<$ub as B>::of(&b)));
    let mut j = J { c, ty: concat!(stringify!($A), "/", stringify!($Bt)), args: [a.clone(), b.clone()], extra: 0 };
    let prod = &a * &b; let num = &a * &one; let z = b.is_zero();
    let rhs = fits(&b, U) && fits(&one, U);           // plain operations work in the left type's width
    let rhsw = fits(&b, W);                            // big operations in the big type's
    let q = |v: &N, d: bool| if z { None } else { Some(if d { up(v, &b) } else { dn(v, &b) }) };
    j.check("mul", attempt(|| big(x * y)), Some(dn(&prod, &one)), U, rhs && fits(&prod, U))?;
    j.check("mul_up", attempt(|| big(x.mul_up(y))), Some(up(&prod, &one)), U, rhs && fits(&(&prod + &one - 1), U))?;
    j.check("div", attempt(|| big(x / y)), q(&num, false), U, rhs && fits(&num, U))?;
    j.check("div_up", attempt(|| big(x.div_up(y))), q(&num, true), U, rhs && fits(&(&num + &b - 1), U))?;
    j.check("big_mul", attempt(|| big(BigOps::big_mul(x, y))), Some(dn(&prod, &one)), U, rhsw && fits(&prod, W))?;
    j.check("big_mul_up", attempt(|| big(BigOps::big_mul_up(x, y))), Some(up(&prod, &one)), U, rhsw && fits(&(&prod + &one - 1), W))?;
    j.check("big_div", attempt(|| big(BigOps::big_div(x, y))), q(&num, false), U, rhsw && fits(&num, W))?;
    j.check("checked_big_div", attempt_res(|| BigOps::checked_big_div(x, y)).map(big), q(&num, false), U, rhsw && fits(&num, W))?;
    j.check("big_div_up", attempt(|| big(BigOps::big_div_up(x, y))), q(&num, true), U, rhsw && fits(&(&num + &b), W))?;
    j.check("big_mul_to_value", attempt(|| B::big(&ToValue::<$Bt, $ba>::big_mul_to_value(x, y))), Some(dn(&prod, &one)), W, rhsw && fits(&prod, W))?;
    j.check("big_mul_to_value_up", attempt(|| B::big(&ToValue::<$Bt, $ba>::big_mul_to_value_up(x, y))), Some(up(&prod, &one)), W, rhsw && fits(&(&prod + &one - 1), W))?;
    // conversions between scales, from the right type into the left one
    let conv = |d: bool| { let v = &b * p10($sa); if d { up(&v, &one) } else { dn(&v, &one) } };
    let ratio = p10(if $sa > $sb { $sa - $sb } else { $sb - $sa });
    let m = fits(&b, U) && fits(&ratio, U);
    j.check("from_decimal", attempt(|| big(<$A as BetweenDecimals<$Bt>>::from_decimal(y))), Some(conv(false)), U, m)?;
    j.check("checked_from_decimal", attempt_res(|| <$A as BetweenDecimals<$Bt>>::checked_from_decimal(y)).map(big), Some(conv(false)), U, m)?;
    j.check("from_decimal_up", attempt(|| big(<$A as BetweenDecimals<$Bt>>::from_decimal_up(y))), Some(conv(true)), U, m && ($sa > $sb || fits(&(&b + &ratio), U)))?;
    j.check("checked_from_decimal_to_value", attempt_res(|| -> Result<$ba, String> { <$A as BetweenDecimalsToValue<$Bt, $ba>>::checked_from_decimal_to_value(y) }).map(|v| B::big(&v)), Some(conv(false)), W, rhsw)?;
    Ok(())
}) as fn(&mut Rng, &mut Cover) -> R); } }
macro_rules! row { ($v:ident, $a:tt, [$($b:tt),*]) => { $( one!($v, $a, $b); )* } }
macro_rules! rows { ($v:ident, [$($a:tt),*], $list:tt) => { $( row!($v, $a, $list); )* } }
macro_rules! types { ($m:ident, $v:ident) => { $m!($v, [(TokenAmount 0 U256 U512), (Liquidity 5 U256 U512), (Percentage 12 u128 U256), (FixedPoint 12 u128 U192), (SqrtPrice 24 u128 U384), (FeeGrowth 28 u128 U256), (SecondsPerLiquidity 25 u128 U256)],
    [(TokenAmount 0 U256 U512), (Liquidity 5 U256 U512), (Percentage 12 u128 U256), (FixedPoint 12 u128 U192), (SqrtPrice 24 u128 U384), (FeeGrowth 28 u128 U256), (SecondsPerLiquidity 25 u128 U256)]); } }
fn pairs() -> Vec<fn(&mut Rng, &mut Cover) -> R> { let mut v: Vec<fn(&mut Rng, &mut Cover) -> R> = vec![]; types!(rows, v); v }

// integers of every kind into a decimal
macro_rules! ints { ($j:ident, $A:ident, $s:literal, $ua:ident, $ba:ident, $r:ident, [$($t:ident),*]) => { $( {
    const U: u32 = <$ua as B>::BITS; const T: u32 = <$t as B>::BITS; const W: u32 = <$ba as B>::BITS;
    let a = operand($r, T);
    let scale = match $r.below(4) { 0 => $s as u8, 1 => ($s as i64 + $r.range(-3, 3)).max(0) as u8, 2 => $r.below(80) as u8, _ => $r.below(256) as u8 };
    let i = <$t as B>::of(&a);
    $j.args = [a.clone(), n(scale)]; $j.extra = T;
    let fit = fits(&a, U);
    $j.check("from_integer", attempt(|| big(<$A as Factories<$t>>::from_integer(i))), Some(&a * p10($s)), U, fit)?;
    let d = ($s as i64 - scale as i64).unsigned_abs() as u32;
    let (ten, grow) = (p10(d), scale < $s);
    let ex = |u: bool| if grow { &a * &ten } else if u { up(&a, &ten) } else { dn(&a, &ten) };
    let m = fit && fits(&ten, U);
    $j.check("from_scale", attempt(|| big(<$A as Factories<$t>>::from_scale(i, scale))), Some(ex(false)), U, m)?;
    $j.check("checked_from_scale", attempt_res(|| <$A as Factories<$t>>::checked_from_scale(i, scale)).map(big), Some(ex(false)), U, m)?;
    $j.check("from_scale_up", attempt(|| big(<$A as Factories<$t>>::from_scale_up(i, scale))), Some(ex(true)), U, m && (grow || fits(&(&a + &ten), U)))?;
    $j.check("checked_from_scale_to_value", attempt_res(|| -> Result<$ba, String> { <$A as FactoriesToValue<$t, $ba>>::checked_from_scale_to_value(i, scale) }).map(|v| B::big(&v)), Some(ex(false)), W, fits(&a, W) && fits(&ten, 128))?;
} )* } }
// the decimal's own value into integers of every kind
macro_rules! outs { ($j:ident, $x:ident, $a:ident, [$($t:ident),*]) => { $( {
    const T: u32 = <$t as B>::BITS;
    $j.extra = T;
    $j.check("cast", attempt(|| B::big(&$x.cast::<$t>())), Some($a.clone()), T, true)?;
} )* } }
macro_rules! couts { ($j:ident, $x:ident, $a:ident, [$($t:ident),*]) => { $( {
    const T: u32 = <$t as B>::BITS;
    $j.extra = T;
    $j.check("checked_cast", attempt_res(|| $x.checked_cast::<$t>()).map(|v| B::big(&v)), Some($a.clone()), T, true)?;
} )* } }
macro_rules! single { ($v:ident, [$(($A:ident $s:literal $ua:ident $ba:ident)),*], $l:tt) => { $( $v.push((|r: &mut Rng, c: &mut Cover| -> R {
    const U: u32 = <$ua as B>::BITS; const W: u32 = <$ba as B>::BITS;
    let one = p10($s);
    let a = operand(r, U); let b = partner(r, &a, U, U, &one);
    let (x, y) = ($A::new(<$ua as B>::of(&a)), $A::new(<$ua as B>::of(&b)));
    let mut j = J { c, ty: stringify!($A), args: [a.clone(), b.clone()], extra: 0 };
    j.check("add", attempt(|| big(x + y)), Some(&a + &b), U, true)?;
    j.check("sub", attempt(|| big(x - y)), Some(&a - &b), U, true)?;
    j.check("add_assign", attempt(|| { let mut z = x; z += y; big(z) }), Some(&a + &b), U, true)?;
    j.check("sub_assign", attempt(|| { let mut z = x; z -= y; big(z) }), Some(&a - &b), U, true)?;
    j.check("mul_assign", attempt(|| { let mut z = x; z *= y; big(z) }), Some(dn(&(&a * &b), &one)), U, fits(&(&a * &b), U))?;
    j.check("div_assign", attempt(|| { let mut z = x; z /= y; big(z) }), if b.is_zero() { None } else { Some(dn(&(&a * &one), &b)) }, U, fits(&(&a * &one), U))?;
    j.check("sub_abs", attempt(|| big(x.sub_abs(y))), Some(if a > b { &a - &b } else { &b - &a }), U, true)?;
    j.check("checked_add", attempt_res(|| CheckedOps::checked_add(x, y)).map(big), Some(&a + &b), U, true)?;
    j.check("checked_sub", attempt_res(|| CheckedOps::checked_sub(x, y)).map(big), Some(&a - &b), U, true)?;
    j.check("checked_div", attempt_res(|| CheckedOps::checked_div(x, y)).map(big), if b.is_zero() { None } else { Some(dn(&(&a * &one), &b)) }, U, fits(&(&a * &one), U))?;
    j.check("one", Some(big($A::one())), Some(one.clone()), U, true)?;
    j.check("almost_one", Some(big($A::almost_one())), Some(&one - 1), U, true)?;
    j.check("max", Some(big($A::max_instance())), Some(p2(U) - 1), U, true)?;
    if ($s != $A::scale()) || x.is_zero() != a.is_zero() { return Err(format!("{}: scale or is_zero is wrong for {a}", stringify!($A))) }
    if ((x < y), (x <= y), (x == y)) != ((a < b), (a <= b), (a == b)) { return Err(format!("{}: comparison of {a} and {b} is wrong", stringify!($A))) }
    if let Some(t) = attempt(|| x.to_string()) {
        let (i, f) = t.split_once('.').unwrap_or((&t, ""));
        let shown: Option<(N, N)> = (|| Some((i.parse().ok()?, if f.is_empty() { N::zero() } else { f.parse().ok()? })))();
        match shown { Some((i, f_)) if (&i * p10(f.len() as u32) + &f_) * &one == &a * p10(f.len() as u32) => j.c.count("displayed"), _ => return Err(format!("{}({a}) is displayed as {t}", stringify!($A))) }
    }
    // division by a bare big number
    let d = partner(r, &a, W, W, &one); let dv = <$ba as B>::of(&d);
    j.args = [a.clone(), d.clone()];
    let num = &a * &one; let z = d.is_zero();
    let q = |u: bool| if z { None } else { Some(if u { up(&num, &d) } else { dn(&num, &d) }) };
    let (m, mu) = (fits(&num, W), fits(&(&num + &d), W));
    j.check("big_div_by_number", attempt(|| big(x.big_div_by_number(dv))), q(false), U, m)?;
    j.check("big_div_by_number_up", attempt(|| big(x.big_div_by_number_up(dv))), q(true), U, mu)?;
    j.check("checked_big_div_by_number", attempt_res(|| x.checked_big_div_by_number(dv)).map(big), q(false), U, m)?;
    j.check("checked_big_div_by_number_up", attempt_res(|| x.checked_big_div_by_number_up(dv)).map(big), q(true), U, mu)?;
    j.args = [a.clone(), N::zero()];
    outs!(j, x, a, [u128, U128, U192, U256, U320, U384, U448, U512]);
    couts!(j, x, a, [U128, U192, U320, U384, U448, U512]);
    ints!(j, $A, $s, $ua, $ba, r, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    let neg = r.range(-3, i32::MAX as i64) as i32; let neg = if r.chance(1, 4) { neg.wrapping_neg() } else { neg };
    j.args = [n(neg), N::zero()]; j.extra = 31;
    j.check("from_integer(i32)", attempt(|| big(<$A as Factories<i32>>::from_integer(neg))), if neg < 0 { None } else { Some(n(neg) * &one) }, U, true)?;
    Ok(())
}) as fn(&mut Rng, &mut Cover) -> R); )* } }
fn singles() -> Vec<fn(&mut Rng, &mut Cover) -> R> { let mut v: Vec<fn(&mut Rng, &mut Cover) -> R> = vec![]; types!(single, v); v }

// casts between all integer widths
macro_rules! casts { ($j:ident, $r:ident, $F:ident, [$($T:ident),*]) => { {
    const FB: u32 = <$F as B>::BITS;
    let a = if $r.chance(1, 2) { operand($r, FB) } else { let b = *$r.pick(&[8u32, 16, 32, 64, 128, 192, 256, 320, 384, 448, 512]); let v = p2(b) + $r.range(-2, 2); if fits(&v, FB) { v } else { operand($r, FB) } };
    let x = <$F as B>::of(&a);
    $( {
        const T: u32 = <$T as B>::BITS;
        $j.ty = concat!(stringify!($F), "->", stringify!($T)); $j.args = [a.clone(), N::zero()];
        $j.check("uint_cast", attempt(|| B::big(&<$T as UintCast<$F>>::uint_cast(x))), Some(a.clone()), T, true)?;
    } )*
} } }
macro_rules! ccasts { ($j:ident, $r:ident, $F:ident, [$($T:ident),*]) => { {
    const FB: u32 = <$F as B>::BITS;
    let b = *$r.pick(&[8u32, 16, 32, 64, 128, 192, 256, 320, 384, 448, 512]);
    let v = if $r.chance(1, 2) { p2(b) + $r.range(-2, 2) } else { operand($r, FB) };
    let a = if fits(&v, FB) { v } else { operand($r, FB) };
    let x = <$F as B>::of(&a);
    $( {
        const T: u32 = <$T as B>::BITS;
        $j.ty = concat!(stringify!($F), "->", stringify!($T)); $j.args = [a.clone(), N::zero()];
        $j.check("uint_checked_cast", attempt_res(|| <$T as UintCheckedCast<$F>>::uint_checked_cast(x)).map(|v| B::big(&v)), Some(a.clone()), T, true)?;
    } )*
} } }
fn widths(r: &mut Rng, c: &mut Cover) -> R {
    let mut j = J { c, ty: "", args: [N::zero(), N::zero()], extra: 0 };
    casts!(j, r, U128, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, U192, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, U256, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, U320, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, U384, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, U448, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, U512, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, u128, [u128, U128, U192, U256, U320, U384, U448, U512]);
    casts!(j, r, u64, [u128, U128, U192, U256, U320, U384, U448, U512]);
    ccasts!(j, r, U128, [u8, u16, u32, u64, u128, U192, U256, U320, U384, U448, U512]);
    ccasts!(j, r, U192, [u8, u16, u32, u64, u128, U128, U256, U320, U384, U448, U512]);
    ccasts!(j, r, U256, [u8, u16, u32, u64, u128, U128, U192, U320, U384, U448, U512]);
    ccasts!(j, r, U320, [u8, u16, u32, u64, u128, U128, U192, U256, U384, U448, U512]);
    ccasts!(j, r, U384, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U448, U512]);
    ccasts!(j, r, U448, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U512]);
    ccasts!(j, r, U512, [u8, u16, u32, u64, u128, U128, U192, U256, U320, U384, U448]);
    ccasts!(j, r, u64, [u128, U128, U192, U256, U320, U384, U448, U512]);
    let a = operand(r, 320); j.args = [a.clone(), N::zero()]; j.ty = "helpers";
    let x = <U320 as B>::of(&a);
    j.check("checked_u320_to_u256", checked_u320_to_u256(x).map(|v| v.big()), Some(a.clone()), 256, true)?;
    let a = operand(r, 256); j.args = [a.clone(), N::zero()];
    j.check("u256_to_u320", Some(u256_to_u320(<U256 as B>::of(&a)).big()), Some(a), 320, true)?;
    let a = operand(r, 128); j.args = [a.clone(), N::zero()];
    j.check("to_u256", Some(to_u256(u128::of(&a)).big()), Some(a), 256, true)
}
fn special(r: &mut Rng, c: &mut Cover) -> R {
    let mut j = J { c, ty: "fees", args: [N::zero(), N::zero()], extra: 0 };
    let one = p10(33);
    // fee per liquidity and back
    let fee = operand(r, 256); let l = partner(r, &fee, 256, 256, &one);
    j.args = [l.clone(), fee.clone()];
    let (fl, ff) = (Liquidity::new(U256::of(&l)), TokenAmount::new(U256::of(&fee)));
    j.check("FeeGrowth::from_fee", attempt_res(|| FeeGrowth::from_fee(fl, ff)).map(big), if l.is_zero() { None } else { Some(dn(&(&fee * &one), &l)) }, 128, true)?;
    let g = operand(r, 128); let cap = *r.pick(&[256u32, 384, 366, 320]); let l = partner(r, &g, 256, cap, &one);
    j.args = [g.clone(), l.clone()];
    let fg = FeeGrowth::new(u128::of(&g)); let fl = Liquidity::new(U256::of(&l));
    j.check("FeeGrowth::to_fee", attempt_res(|| fg.to_fee(fl)).map(big), Some(dn(&(&g * &l), &one)), 256, true)?;
    let (a, b) = (operand(r, 128), operand(r, 128)); let b = if r.chance(1, 3) { let v = p2(128) - &a + r.range(-1, 1); if fits(&v, 128) { v } else { b } } else { b };
    j.args = [a.clone(), b.clone()];
    let m = p2(128); let (x, y) = (u128::of(&a), u128::of(&b));
    let wrap = |v: N| ((v % &m) + &m) % &m;
    j.check("FeeGrowth::unchecked_add", attempt(|| big(FeeGrowth::new(x).unchecked_add(FeeGrowth::new(y)))), Some(wrap(&a + &b)), 128, true)?;
    j.check("FeeGrowth::unchecked_sub", attempt(|| big(FeeGrowth::new(x).unchecked_sub(FeeGrowth::new(y)))), Some(wrap(&a - &b)), 128, true)?;
    j.check("SecondsPerLiquidity::unchecked_add", attempt(|| big(SecondsPerLiquidity::new(x).unchecked_add(SecondsPerLiquidity::new(y)))), Some(wrap(&a + &b)), 128, true)?;
    j.check("SecondsPerLiquidity::unchecked_sub", attempt(|| big(SecondsPerLiquidity::new(x).unchecked_sub(SecondsPerLiquidity::new(y)))), Some(wrap(&a - &b)), 128, true)?;
    let t0 = if r.chance(1, 2) { r.below(4_000_000_000) } else { r.next() >> r.below(64) }; let t1 = match r.below(4) { 0 => t0, 1 => t0.wrapping_add(r.below(400_000_000)), 2 => t0.wrapping_sub(r.below(1000)), _ => r.next() >> r.below(64) };
    let l = operand(r, 256);
    j.args = [n(t1) - n(t0), l.clone()];
    let ok = t1 > t0 && !l.is_zero(); let num = (n(t1) - n(t0)) * p10(30);
    let lq = Liquidity::new(U256::of(&l));
    j.check("calculate_seconds_per_liquidity_global", attempt_res(|| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(lq, t1, t0)).map(big), if ok { Some(dn(&num, &l)) } else { None }, 128, fits(&num, 128))?;
    // quotients of wide values
    let (one, nom) = (p10(24), operand(r, 384)); let den = partner(r, &nom, 384, 384, &one);
    j.args = [nom.clone(), den.clone()]; j.ty = "SqrtPrice";
    let (vn, vd) = (U384::of(&nom), U384::of(&den)); let z = den.is_zero(); let num = &nom * &one;
    let q = |a: &N, d: bool| if z { None } else { Some(if d { up(a, &den) } else { dn(a, &den) }) };
    let inner = |d: bool| q(&num, d).map_or(false, |v| fits(&(v + &one), 384));
    j.check("big_div_values_to_token", attempt_res(|| SqrtPrice::big_div_values_to_token(vn, vd)).map(big), q(&nom, false), 256, fits(&num, 448) && inner(false))?;
    j.check("big_div_values_to_token_up", attempt_res(|| SqrtPrice::big_div_values_to_token_up(vn, vd)).map(big), q(&nom, true), 256, fits(&(&num + &den), 448) && inner(true))?;
    j.check("big_div_values_up", attempt(|| big(SqrtPrice::big_div_values_up(vn, vd))), q(&num, true), 128, fits(&(&num + &den), 384))?;
    let nom = operand(r, 448); let den = partner(r, &nom, 448, 448, &one); let num = &nom * &one; let z = den.is_zero();
    j.args = [nom.clone(), den.clone()];
    let (vn, vd) = (U448::of(&nom), U448::of(&den));
    let q = |d: bool| if z { None } else { Some(if d { up(&num, &den) } else { dn(&num, &den) }) };
    j.check("checked_big_div_values", attempt_res(|| SqrtPrice::checked_big_div_values(vn, vd)).map(big), q(false), 128, fits(&num, 448))?;
    j.check("checked_big_div_values_up", attempt_res(|| SqrtPrice::checked_big_div_values_up(vn, vd)).map(big), q(true), 128, fits(&(&num + &den), 448))?;
    let _ = N::one();
    Ok(())
}
pub fn batch(j: &Job, i: u64, c: &mut Cover) -> R {
    let mut r = Rng::new(mix(j.seed, j.prop, i));
    let (p, s) = (pairs(), singles());
    for _ in 0..6 {
        for f in &p { f(&mut r, c)? }
        for f in &s { f(&mut r, c)? }
        widths(&mut r, c)?;
        for _ in 0..4 { special(&mut r, c)? }
    }
    Ok(())
}
