static const LD TOL[4][3][5] = { // family, integrand, band n >= 30,60,100,200,400: 60 x the largest error measured
 {{8e-06L,4.9e-10L,2.5e-11L,3.9e-13L,3e-13L},{6e-05L,1.2e-09L,8e-12L,3e-13L,3e-13L},{0.0023L,3.8e-08L,6.2e-13L,3e-13L,3e-13L},},
 {{4.2e-09L,7.4e-10L,3.4e-11L,4.6e-13L,3e-13L},{3.3e-07L,3.8e-08L,1e-09L,1.5e-11L,3e-13L},{9.6e-12L,6.1e-13L,3e-13L,3e-13L,3e-13L},},
 {{9.3e-05L,8.1e-11L,1.6e-12L,3e-13L,3e-13L},{1.1e-05L,2.5e-11L,5.4e-13L,3e-13L,3e-13L},{0.00042L,3.7e-10L,3e-13L,3e-13L,3e-13L},},
 {{0.00027L,4.8e-08L,2.3e-10L,3e-13L,3e-13L},{5.8e-07L,4.8e-09L,1.1e-10L,6.3e-13L,3e-13L},{9.4e-06L,1.1e-07L,3.6e-09L,4.4e-11L,3e-13L},},
};
tol = TOL[k][f][band == 30 ? 0 : band == 60 ? 1 : band == 100 ? 2 : band == 200 ? 3 : 4];
