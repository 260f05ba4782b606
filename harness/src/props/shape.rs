use super::*;

pub fn fill(c: &mut Ctx) {
    let thorough = c.thorough;
    // the setup/proving comparison needs no assignment search: the quick lists are enough
    c.thorough = false;
    c.shape_only = true;
    bits::range(c, SHAPE);
    bits::decompose(c, SHAPE);
    bits::bit(c, SHAPE);
    eqs::flags(c, SHAPE);
    eqs::carried(c, SHAPE);
    eqs::expose(c, SHAPE);
    arith::poly(c, SHAPE);
    arith::mult(c, SHAPE);
    arith::modular(c, SHAPE);
    arith::linear(c, SHAPE);
    muxes::fill(c, SHAPE);
    order::fill(c, SHAPE);
    median::fill(c, SHAPE);
    diff::fill(c, SHAPE);
    c.thorough = thorough;
}
