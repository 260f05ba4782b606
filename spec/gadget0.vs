#fn BigNat as Gadget::value
#impl impl BigNat
#ensures
  res == (match self.value { Some(x) => Some(&x), None => None }),
#rs
impl TFrom<BigNat> for BigNat { open spec fn from_ok(a: BigNat) -> bool { true } open spec fn from_sp(a: BigNat, o: BigNat) -> bool { o == a } fn tfrom(a: BigNat) -> (o: BigNat) { a } }
impl TFrom<Polynomial> for Polynomial { open spec fn from_ok(a: Polynomial) -> bool { true } open spec fn from_sp(a: Polynomial, o: Polynomial) -> bool { o == a } fn tfrom(a: Polynomial) -> (o: Polynomial) { a } }
impl TFrom<Num> for Num {
    open spec fn from_ok(a: Num) -> bool { true }
    open spec fn from_sp(a: Num, o: Num) -> bool { o == a }
    fn tfrom(a: Num) -> Num { a }
}
