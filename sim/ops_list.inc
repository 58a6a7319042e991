// the public functions and the argument types each is instantiated for
#if GROUP==0
  U1(abs) O1(abs,s) U1(ceil) U1(floor) U1(trunc) U1(round) U2(fmod)
  F1(signbit) F2(copysign) U1(sgn) U2(max) O2(max,q,q) O2(max,u,u) U2(min) O2(min,q,q) O2(min,u,u)
#elif GROUP==1
  U1(sqrt) U1(inv_sqrt) U2(hypot) U1(exp) U1(expm1)
#elif GROUP==2
  U1(log) U1(log1p) U1(log2) U1(log10)
  F2(pow) O2(pow,d,i) O2(pow,f,i) O2(pow,l,i) O2(pow,d,u) O2(pow,d,q) O2(pow,l,q) O2(pow,f,u)
  O2(pow,i,i) O2(pow,q,i) O2(pow,i,u) O2(pow,i,d) O2(pow,u,u) O2(pow,z,u)
#elif GROUP==3
  U1(tan) U1(cos) U1(sin) U1(atan) U2(atan2) U1(acos) U1(asin)
#elif GROUP==4
  U1(tanh) U1(cosh) U1(sinh) U1(atanh) U1(acosh) U1(asinh)
  I2(gcd) O2(gcd,d,d) O2(gcd,l,l) I2(lcm)
  O1(factorial,i) O1(factorial,q) O1(factorial,u) O1(factorial,z) F1(factorial)
  O2(binomial_coef,i,i) O2(binomial_coef,q,q) O2(binomial_coef,u,u) O2(binomial_coef,z,z) O2(binomial_coef,d,d) O2(binomial_coef,i,q)
#elif GROUP==5
  U1(lgamma) U1(tgamma) F2(lbeta) O2(lbeta,i,i) F2(beta) O2(beta,i,i)
  O2(lmgamma,d,i) O2(lmgamma,f,i) O2(lmgamma,l,i) O2(lmgamma,d,u) O2(lmgamma,i,i)
  O2(log_binomial_coef,i,i) O2(log_binomial_coef,d,d) O2(log_binomial_coef,f,f) O2(log_binomial_coef,l,l)
#elif GROUP==6
  U1(erf) F1(erf_inv) O1(erf_inv,i) F2(incomplete_gamma) O2(incomplete_gamma,i,d) O2(incomplete_gamma,d,i) O2(incomplete_gamma,i,i)
#elif GROUP==7
  O3(incomplete_beta,f,f,f) O3(incomplete_beta,d,d,d) O3(incomplete_beta,l,l,l) O3(incomplete_beta,i,i,d) O3(incomplete_beta,f,f,d)
  O3(incomplete_beta_inv,f,f,f) O3(incomplete_beta_inv,d,d,d) O3(incomplete_beta_inv,l,l,l) O3(incomplete_beta_inv,i,i,d)
  F2(incomplete_gamma_inv) O2(incomplete_gamma_inv,i,d)
#endif
