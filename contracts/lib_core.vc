@module option_usize = option_usize.rs
@text
impl<T: UIdx> OptionUsize<T> {
    pub open spec fn val(self) -> T { self.0 }
    pub open spec fn none_v(self) -> bool { self.0.idx() == usize::MAX }
}
@item OptionUsize
@fn OptionUsize::unwrap
@spec
    requires !self.none_v(),
    ensures r == self.val(),
@fn OptionUsize::unwrap_or
@ret r
@spec
    ensures r == (if self.none_v() { or } else { self.val() }),
@fn OptionUsize::some
@spec
    ensures r.val() == val,
@fn OptionUsize::none
@spec
    ensures r.none_v(),
@hint start
    proof { T::idx_mk(usize::MAX); }
@fn OptionUsize::is_none
@spec
    ensures r == self.none_v(),
@fn OptionUsize::is_some
@spec
    ensures r == !self.none_v(),

@module matchr = lex/nfa.rs
@text
pub open spec fn inr(m: Match, c: int) -> bool { m.range.start <= c < m.range.end }
pub open spec fn nonempty(m: Match) -> bool { m.range.start < m.range.end }
pub open spec fn overlap(a: Match, b: Match) -> bool {
    nonempty(a) && nonempty(b) && a.range.start < b.range.end && b.range.start < a.range.end
}
@item Match
@fn Match::contains_u32
@spec
    ensures r == inr(*self, c as int),
@fn Match::intersects
@ret res
@spec
    ensures res == overlap(*self, *r),
@fn Match::is_disjoint
@ret res
@spec
    ensures res == !overlap(*self, *r),
@fn Match::compare
@spec
    ensures
        r is Equal <==> *self == *other,
        r is Less <==> (self.range.start < other.range.start || (self.range.start == other.range.start && self.range.end < other.range.end)),
@fn Match::char
@spec
    ensures r.range.start == c as u32, r.range.end == c as u32 + 1,
@fn Match::byte
@spec
    ensures r.range.start == b as u32, r.range.end == b as u32 + 1,
@fn Match::matches
@spec
    ensures r == inr(*self, c as int),
