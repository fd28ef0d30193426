// what every element-wise function documents, element by element (std:: functions uninterpreted)
pub open spec fn ev_abs(a: F) -> F { sf_abs(a) }
pub open spec fn ev_neg(a: F) -> F { sf_neg(a) }
pub open spec fn ev_sign(a: F) -> F { if sf_gt(a, sf_int(0)) { sf_int(1) } else if sf_lt(a, sf_int(0)) { sf_int(-1) } else { sf_int(0) } }
pub open spec fn ev_sqrt(a: F) -> F { sf_sqrt(a) }
pub open spec fn ev_square(a: F) -> F { sf_mul(a, a) }
pub open spec fn ev_exp(a: F) -> F { sf_exp(a) }
pub open spec fn ev_log(a: F) -> F { sf_log(a) }
pub open spec fn ev_sin(a: F) -> F { sf_sin(a) }
pub open spec fn ev_cos(a: F) -> F { sf_cos(a) }
pub open spec fn ev_sigmoid(a: F) -> F { sf_div(sf_int(1), sf_add(sf_int(1), sf_exp(sf_neg(a)))) }
pub open spec fn ev_tanh(a: F) -> F { sf_tanh(a) }
pub open spec fn ev_relu(a: F) -> F { if sf_gt(a, sf_int(0)) { a } else { sf_int(0) } }
pub open spec fn ev_gelu(a: F) -> F { sf_mul(sf_mul(sf_lit(0.5real), a), sf_add(sf_int(1), sf_tanh(sf_mul(sf_lit(0.797884583real), sf_add(a, sf_mul(sf_mul(sf_mul(sf_lit(0.0447149985real), a), a), a)))))) }
pub open spec fn ev_silu(a: F) -> F { sf_div(a, sf_add(sf_int(1), sf_exp(sf_neg(a)))) }
pub open spec fn ev_not(a: F) -> F { sf_int(if sf_ne(a, sf_lit(0real)) { 0 } else { 1 }) }
pub open spec fn ev_sin_b(a: F, g: F) -> F { sf_mul(sf_cos(a), g) }
pub open spec fn ev_cos_b(a: F, g: F) -> F { sf_mul(sf_neg(sf_sin(a)), g) }
