// a1 a2 a3 a4 b1 b2 columns of a log-normal Mie distribution at 2.25 um
static const int N_MIE = 34; static const double MIE[34][6] = {
{1.0,0.0,0.0,0.8715956,0.0,0.0},
{1.865569,0.0,0.0,1.991989,0.0,0.0},
{1.789985,3.624988,3.299322,1.752134,0.2040228,-0.119528},
{1.220838,1.855314,1.818363,1.282607,0.1793956,-0.2506787},
{0.7472409,1.158049,1.053861,0.7250296,0.06931801,-0.1401336},
{0.4017337,0.5200117,0.5001992,0.4138062,0.06333726,-0.1094356},
{0.2173326,0.3062761,0.2763678,0.2072329,0.009113333,-0.05749106},
{0.105402,0.1228728,0.1177919,0.1084371,0.0158862,-0.03124768},
{0.05737447,0.07744422,0.06836223,0.05319669,-0.0007116551,-0.01924893},
{0.02570752,0.02766059,0.02690121,0.02704715,0.00364588,-0.007391765},
{0.01527185,0.02019327,0.01705311,0.01350249,-0.0008560194,-0.006263192},
{0.006202491,0.006256181,0.006324442,0.006875153,0.0008068091,-0.001538876},
{0.004278587,0.005585235,0.004384423,0.003516234,-0.0003511874,-0.002070039},
{0.001529611,0.00147119,0.001584697,0.001840066,0.0001703361,-0.0002792558},
{0.001276447,0.001645192,0.001165601,0.0009505218,-0.0001149498,-0.0006936708},
{0.0003964385,0.0003721456,0.0004318616,0.0005257493,3.355741e-05,-4.060458e-05},
{0.0004036524,0.0005122611,0.0003207491,0.0002678398,-3.414587e-05,-0.0002324355},
{0.0001112891,0.0001046718,0.0001289249,0.0001607317,6.171387e-06,-3.306567e-06},
{0.0001338887,0.0001668343,9.223956e-05,7.9337e-05,-9.640783e-06,-7.709085e-05},
{3.468251e-05,3.328612e-05,4.196528e-05,5.235625e-05,1.179051e-06,3.370835e-07},
{4.611093e-05,5.632334e-05,2.82884e-05,2.509945e-05,-2.657699e-06,-2.529404e-05},
{1.204792e-05,1.183171e-05,1.470718e-05,1.804659e-05,3.231468e-07,6.327741e-08},
{1.637357e-05,1.95998e-05,9.447991e-06,8.609045e-06,-7.373243e-07,-8.289136e-06},
{4.577401e-06,4.562301e-06,5.465617e-06,6.535565e-06,1.428159e-07,-1.388055e-07},
{5.975423e-06,7.016582e-06,3.458916e-06,3.208559e-06,-2.162281e-07,-2.759203e-06},
{1.849954e-06,1.852499e-06,2.124626e-06,2.471321e-06,7.298353e-08,-1.397246e-07},
{2.24182e-06,2.587524e-06,1.371654e-06,1.283643e-06,-7.146517e-08,-9.5129e-07},
{7.774087e-07,7.764272e-07,8.553963e-07,9.71143e-07,3.512476e-08,-8.954491e-08},
{8.673507e-07,9.867549e-07,5.773133e-07,5.416224e-07,-2.769256e-08,-3.457337e-07},
{3.3514e-07,3.325543e-07,3.546904e-07,3.953696e-07,1.510658e-08,-4.806436e-08},
{3.47618e-07,3.91021e-07,2.531924e-07,2.37415e-07,-1.217651e-08,-1.340174e-07},
{1.47273e-07,1.450435e-07,1.510993e-07,1.664097e-07,5.714727e-09,-2.361707e-08},
{1.448956e-07,1.616122e-07,1.142275e-07,1.070125e-07,-5.633488e-09,-5.552033e-08},
{6.591328e-08,6.450049e-08,6.617812e-08,7.23714e-08,1.824517e-09,-1.110071e-08},
};
