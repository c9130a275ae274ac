// Assumed contracts for the calendar types of the `jiff` crate (proleptic Gregorian calendar).
verus! {
pub open spec fn leap(y: int) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub open spec fn dim(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
/// days in year `y` before the first of month `m`
pub open spec fn before_month(y: int, m: int) -> int {
    let l: int = if leap(y) { 1 } else { 0 };
    if m <= 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 + l } else if m == 4 { 90 + l } else if m == 5 { 120 + l } else if m == 6 { 151 + l }
    else if m == 7 { 181 + l } else if m == 8 { 212 + l } else if m == 9 { 243 + l } else if m == 10 { 273 + l } else if m == 11 { 304 + l } else { 334 + l }
}
pub open spec fn ylen(y: int) -> int { if leap(y) { 366 } else { 365 } }

#[verifier::external_body] #[derive(Clone, Copy)] pub struct DateTime { x: u8 }
impl DateTime {
    pub uninterp spec fn y(&self) -> int;
    pub uninterp spec fn m(&self) -> int;
    pub uninterp spec fn dd(&self) -> int;
    pub uninterp spec fn hh(&self) -> int;
    pub uninterp spec fn mi(&self) -> int;
    pub uninterp spec fn ss(&self) -> int;
    pub open spec fn doy(&self) -> int { before_month(self.y(), self.m()) + self.dd() }
    pub open spec fn wf(&self) -> bool { -9999 <= self.y() <= 9999 && 1 <= self.m() <= 12 && 1 <= self.dd() <= dim(self.y(), self.m()) && 0 <= self.hh() < 24 && 0 <= self.mi() < 60 && 0 <= self.ss() < 60 }
    #[verifier::external_body] pub broadcast proof fn axiom_wf(x: DateTime) ensures #[trigger] x.wf() {}
    #[verifier::external_body] pub fn date(&self) -> (r: DateTime) ensures r.y() == self.y(), r.m() == self.m(), r.dd() == self.dd() { unimplemented!() }
    #[verifier::external_body] pub fn year(&self) -> (r: i16) ensures r == self.y(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn month(&self) -> (r: i8) ensures r == self.m(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn day(&self) -> (r: i8) ensures r == self.dd(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn hour(&self) -> (r: i8) ensures r == self.hh(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn minute(&self) -> (r: i8) ensures r == self.mi(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn second(&self) -> (r: i8) ensures r == self.ss(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn day_of_year(&self) -> (r: i16) ensures r == self.doy(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn in_leap_year(&self) -> (r: bool) ensures r == leap(self.y()), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn days_in_month(&self) -> (r: i8) ensures r == dim(self.y(), self.m()), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn days_in_year(&self) -> (r: i16) ensures r == ylen(self.y()), self.wf() { unimplemented!() }
}
}
