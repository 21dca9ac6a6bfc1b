------------------------------ MODULE Published ----------------------------
(* The published tables: chronology systems, chronology/production/equilibrium functions, epochs. *)
(* Transcribed by tools/published.py; numbers are decimal strings. *)
Systems == <<
  [name |-> "Moon, Neukum (1983)", cf |-> "Moon, Neukum (1983)", pf |-> "Moon, Neukum (1983)", body |-> "Moon"],
  [name |-> "Moon, Neukum et al. (2001)", cf |-> "Moon, Neukum et al. (2001)", pf |-> "Moon, Neukum et al. (2001)", body |-> "Moon"],
  [name |-> "Moon, Hartmann 2010 iteration", cf |-> "Moon, Hartmann 2010 iteration", pf |-> "Moon, Hartmann 2010 iteration", body |-> "Moon"],
  [name |-> "Moon, Yue et al. (2022)", cf |-> "Moon, Yue et al. (2022)", pf |-> "Moon, Neukum et al. (2001)", body |-> "Moon"],
  [name |-> "Mars, Neukum-Ivanov (2001)", cf |-> "Mars, Hartmann & Neukum (2001)", pf |-> "Mars, Ivanov (2001)", body |-> "Mars"],
  [name |-> "Mars, Ivanov (2001)", cf |-> "Mars, Ivanov (2001)", pf |-> "Mars, Ivanov (2001)", body |-> "Mars"],
  [name |-> "Mars, Hartmann 2004 iteration", cf |-> "Mars, Hartmann (2005) [Michael (2013)]", pf |-> "Mars, Hartmann (2005)", body |-> "Mars"],
  [name |-> "Mars, Hartmann & Daubar (2016)", cf |-> "Mars, Hartmann (2005) [Michael (2013)]", pf |-> "Mars, Hartmann & Daubar (2016)", body |-> "Mars"],
  [name |-> "Mercury, Strom & Neukum (1988)", cf |-> "Mercury, Strom & Neukum (1988)", pf |-> "Mercury, Strom & Neukum (1988)", body |-> "Mercury"],
  [name |-> "Mercury, Neukum et al. (2001)", cf |-> "Mercury, Neukum et al. (2001)", pf |-> "Mercury, Neukum et al. (2001)", body |-> "Mercury"],
  [name |-> "Mercury, Le Feuvre and Wieczorek 2011 non-porous", cf |-> "Mercury, Le Feuvre and Wieczorek (2011) non-porous", pf |-> "Mercury, Le Feuvre and Wieczorek (2011) non-porous", body |-> "Mercury"],
  [name |-> "Mercury, Le Feuvre and Wieczorek 2011 porous", cf |-> "Mercury, Le Feuvre and Wieczorek (2011) porous", pf |-> "Mercury, Le Feuvre and Wieczorek (2011) porous", body |-> "Mercury"],
  [name |-> "Vesta, Rev4, Schmedemann et al (2014)", cf |-> "Vesta, Rev4, Schmedemann et al (2014)", pf |-> "Vesta, Rev4, Schmedemann et al (2014)", body |-> "Vesta"],
  [name |-> "Vesta, Rev3, Schmedemann et al (2014)", cf |-> "Vesta, Rev3, Schmedemann et al (2014)", pf |-> "Vesta, Rev3, Schmedemann et al (2014)", body |-> "Vesta"],
  [name |-> "Vesta, Marchi & O'Brien (2014)", cf |-> "Vesta, O'Brien et al. (2014)", pf |-> "Vesta, Marchi et al (2013) [inferred, NS]", body |-> "Vesta"],
  [name |-> "Ceres, Hiesinger et al. (2016)", cf |-> "Ceres, Hiesinger et al. (2016)", pf |-> "Ceres, Hiesinger et al. (2016)", body |-> "Ceres"],
  [name |-> "Ida, Schmedemann et al (2014)", cf |-> "Ida, Schmedemann et al (2014)", pf |-> "Ida, Schmedemann et al (2014)", body |-> "Ida"],
  [name |-> "Gaspra, Schmedemann et al (2014)", cf |-> "Gaspra, Schmedemann et al (2014)", pf |-> "Gaspra, Schmedemann et al (2014)", body |-> "Gaspra"],
  [name |-> "Lutetia, Schmedemann et al (2014)", cf |-> "Lutetia, Schmedemann et al (2014)", pf |-> "Lutetia, Schmedemann et al (2014)", body |-> "Lutetia"],
  [name |-> "Phobos, Case A - SOM, Schmedemann et al (2014)", cf |-> "Phobos, Case A - SOM, Schmedemann et al (2014)", pf |-> "Phobos, Case A - SOM, Schmedemann et al (2014)", body |-> "Phobos"],
  [name |-> "Phobos, Case B - MBA, Schmedemann et al (2014)", cf |-> "Phobos, Case B - MBA, Schmedemann et al (2014)", pf |-> "Phobos, Case B - MBA, Schmedemann et al (2014)", body |-> "Phobos"] >>
ChronFns == <<
  [name |-> "Moon, Neukum (1983)", kind |-> "coeff", p |-> <<"5.44e-14", "6.93", "0.0", "0.000838">>],
  [name |-> "Moon, Neukum et al. (2001)", kind |-> "coeff", p |-> <<"5.44e-14", "6.93", "0.0", "0.000838">>],
  [name |-> "Moon, Hartmann 2010 iteration", kind |-> "coeff", p |-> <<"2.57e-14", "6.93", "0.0", "0.000397">>],
  [name |-> "Moon, Yue et al. (2022)", kind |-> "coeff", p |-> <<"1.089e-13", "6.757", "0.0", "0.000766">>],
  [name |-> "Mars, Hartmann & Neukum (2001)", kind |-> "coeff", p |-> <<"3.22e-14", "6.93", "0.0", "0.0004875">>],
  [name |-> "Mars, Ivanov (2001)", kind |-> "coeff", p |-> <<"2.68e-14", "6.93", "0.0", "0.000413">>],
  [name |-> "Mars, Hartmann (2005) [Michael (2013)]", kind |-> "coeff", p |-> <<"3.79e-14", "6.93", "0.0", "0.000584">>],
  [name |-> "Mercury, Strom & Neukum (1988)", kind |-> "coeff", p |-> <<"1.186e-13", "6.93", "0.0", "0.001818">>],
  [name |-> "Mercury, Neukum et al. (2001)", kind |-> "coeff", p |-> <<"6.247e-14", "6.93", "0.0", "0.000962">>],
  [name |-> "Mercury, Le Feuvre and Wieczorek (2011) non-porous", kind |-> "coeff", p |-> <<"2.74e-24", "14.44", "0.0", "0.115">>],
  [name |-> "Mercury, Le Feuvre and Wieczorek (2011) porous", kind |-> "coeff", p |-> <<"6.11e-26", "14.44", "0.0", "0.00257">>],
  [name |-> "Vesta, Rev4, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"1.28501204957199e-12", "6.93", "0.0", "0.0197948547342156">>],
  [name |-> "Vesta, Rev3, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"1.32232049255323e-12", "6.93", "0.0", "0.0203695693521986">>],
  [name |-> "Vesta, O'Brien et al. (2014)", kind |-> "code", p |-> <<>>],
  [name |-> "Ceres, Hiesinger et al. (2016)", kind |-> "coeff", p |-> <<"3.79e-12", "6.93", "0.0", "0.0584">>],
  [name |-> "Ida, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"1.58098379906017e-12", "6.93", "0.0", "0.0243541254340518">>],
  [name |-> "Gaspra, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"2.63540786651188e-12", "6.93", "0.0", "0.040596907943694">>],
  [name |-> "Lutetia, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"2.04789006742868e-12", "6.93", "0.0", "0.0315465418475227">>],
  [name |-> "Phobos, Case A - SOM, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"5.24956219344925e-14", "6.93", "0.0", "0.000808981039512889">>],
  [name |-> "Phobos, Case B - MBA, Schmedemann et al (2014)", kind |-> "coeff", p |-> <<"4.02087515959294e-12", "6.93", "0.0", "0.0619392166128471">>] >>
ProdFns == <<
  [name |-> "Moon, Neukum (1983)", type |-> "polynomial", coef |-> <<"-2.5339", "-3.6269", "0.43662", "0.79347", "0.086468", "-0.26485", "-0.066382", "0.037923", "0.010596", "-0.0022496", "-0.00051797", "3.97e-05">>, range |-> <<"0.01", "300.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Moon, Neukum et al. (2001)", type |-> "polynomial", coef |-> <<"-3.0768", "-3.557528", "0.781027", "1.021521", "-0.156012", "-0.444058", "0.019977", "0.08685", "-0.005874", "-0.006809", "0.000825", "5.54e-05">>, range |-> <<"0.01", "300.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Moon, Hartmann 2010 iteration", type |-> "tabular", coef |-> <<>>, range |-> <<>>, h |-> <<"36600.0", "9870.0", "2630.0", "699.0", "186.0", "49.8", "13.3", "3.49", "0.94", "0.25", "0.0665", "0.0176", "0.00469", "0.00125", "0.000473", "0.000253", "0.000136", "7.26e-05", "3.9e-05", "2.08e-05", "1.12e-05", "5.98e-06", "3.21e-06", "1.72e-06", "9.22e-07", "3.8e-07", "1.5e-07">>, i1 |-> 13],
  [name |-> "Mars, Ivanov (2001)", type |-> "polynomial", coef |-> <<"-3.383677", "-3.197453", "1.256814", "0.7915374", "-0.4860814", "-0.3630098", "0.1015683", "0.06755923", "-0.01180639", "-0.004753462", "0.0006232845", "5.805492e-05">>, range |-> <<"0.015", "362.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Mars, Neukum (1983)", type |-> "polynomial", coef |-> <<"-3.7887", "-2.9076", "1.187", "0.38419", "-0.39553", "-0.16517", "0.058655", "0.026348", "-0.0036585", "-0.0016354", "7.3875e-05", "2.8421e-05">>, range |-> <<"0.01", "300.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Mars, Hartmann (2005)", type |-> "tabular", coef |-> <<>>, range |-> <<>>, h |-> <<"4040.0", "2330.0", "1140.0", "458.0", "191.0", "66.6", "24.0", "9.44", "3.3", "1.22", "0.437", "0.147", "0.047", "0.0138", "0.00402", "0.00115", "0.000308", "0.000128", "6.85e-05", "3.67e-05", "1.98e-05", "1.06e-05", "5.68e-06", "3.04e-06", "1.62e-06", "8.71e-07", "4.67e-07", "2.4e-07", "1.12e-07", "5.21e-08", "2.43e-08", "1.13e-08", "5.28e-09", "2.47e-09", "1.15e-09", "5.37e-10">>, i1 |-> 16],
  [name |-> "Mars, Hartmann & Daubar (2016)", type |-> "tabular", coef |-> <<>>, range |-> <<>>, h |-> <<"110000.0", "75000.0", "45000.0", "24000.0", "11000.0", "4200.0", "1600.0", "600.0", "190.0", "67.0", "24.0", "9.44", "3.3", "1.22", "0.437", "0.147", "0.047", "0.0138", "0.00402", "0.00115", "0.000308", "0.000128", "6.85e-05", "3.67e-05", "1.98e-05", "1.06e-05", "5.68e-06", "3.04e-06", "1.62e-06", "8.71e-07", "4.67e-07", "2.4e-07", "1.12e-07", "5.21e-08", "2.43e-08", "1.13e-08", "5.28e-09", "2.47e-09", "1.15e-09", "5.37e-10">>, i1 |-> 20],
  [name |-> "Mercury, Strom & Neukum (1988)", type |-> "polynomial", coef |-> <<"-2.6003", "-3.6712", "0.2946", "0.763", "0.162", "-0.2379", "-0.081361", "0.032493", "0.011737", "-0.0019272", "-0.00054447", "3.97e-05">>, range |-> <<"0.01", "100.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Mercury, Neukum et al. (2001)", type |-> "polynomial", coef |-> <<"-3.016675", "-3.627417", "0.6038601", "1.026714", "-0.003767761", "-0.4204364", "-0.032235", "0.08044575", "0.003170165", "-0.006733922", "0.0001334403", "0.0001428627">>, range |-> <<"0.01", "100.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Mercury, Le Feuvre and Wieczorek (2011) non-porous", type |-> "polynomial", coef |-> <<"-0.939", "-3.994", "-1.116", "1.269", "1.272", "-0.8276", "-0.3718", "0.2463", "0.02091", "-0.02756", "0.003659", "0.0">>, range |-> <<"0.1", "1000.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Mercury, Le Feuvre and Wieczorek (2011) porous", type |-> "polynomial", coef |-> <<"-2.59", "-3.673", "0.9002", "0.9609", "-0.5239", "-0.3622", "0.1508", "0.05224", "-0.01843", "-0.00251", "0.0008053">>, range |-> <<"0.1", "1000.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Vesta, Rev4, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-3.365", "-2.9267", "0.6192", "0.59636", "0.11879", "-0.30577", "-0.20515", "0.068576", "0.058513", "-0.010293", "-0.0053325", "0.0009643">>, range |-> <<"0.03", "500.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Vesta, Rev3, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-3.1643", "-3.0382", "0.5445", "0.67305", "0.11447", "-0.34186", "-0.15077", "0.079115", "0.035557", "-0.0099727", "-0.002574", "0.00058434">>, range |-> <<"0.00380141", "500.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Vesta, Marchi et al (2013) [inferred, NS]", type |-> "polynomial", coef |-> <<"-1.723", "-2.256", "0.5189", "0.2271", "-0.2462", "-0.1768", "0.05113", "0.04482", "-0.004253", "-0.004663", "0.0001013", "0.0001681">>, range |-> <<"0.001", "600.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Ceres, Hiesinger et al. (2016)", type |-> "polynomial", coef |-> <<"-2.8502", "-3.2567", "0.48621", "0.60437", "0.07478", "-0.18704", "-0.072493", "0.02096", "0.013396", "-0.00072764", "-0.00080732", "1.5624e-05">>, range |-> <<"0.0066", "301.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Ida, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-3.224142138786374", "-2.734469281506526", "0.671929065421138", "0.324530500059052", "-0.117050908572989", "-0.06144422137156", "0.025122353823233", "-0.016168430276488", "-0.010553901203146", "0.006314954709733", "0.001418988794371", "-0.000624930348572">>, range |-> <<"0.01", "500.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Gaspra, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-2.99494606997235", "-2.837652592429328", "0.588639686417394", "0.362687108451849", "-0.090567764875174", "-0.081316576656523", "0.033630503955855", "-0.005110350246025", "-0.015222706637551", "0.004495261079555", "0.002050010873481", "-0.000613330653994">>, range |-> <<"0.01", "500.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Lutetia, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-3.196962504355302", "-2.750391206930112", "0.65554691514628", "0.320959334276113", "-0.101901273684199", "-0.05167817072009", "0.016546774685667", "-0.020969106448107", "-0.008409482560258", "0.007003716267793", "0.001211905612587", "-0.000637909708634">>, range |-> <<"0.01", "500.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Phobos, Case A - SOM, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-2.5489", "-2.9794", "0.42605", "0.32288", "-0.030823", "-0.022295", "0.019473", "-0.022278", "-0.0085611", "0.0053854", "0.00087331", "-0.0003887">>, range |-> <<"0.01", "10.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Phobos, Case B - MBA, Schmedemann et al (2014)", type |-> "polynomial", coef |-> <<"-2.8783", "-2.8687", "0.53853", "0.30803", "-0.048714", "-0.018894", "0.00371", "-0.025344", "-0.0033966", "0.005711", "0.0004281", "-0.00036638">>, range |-> <<"0.01", "10.0">>, h |-> <<>>, i1 |-> 0] >>
EquilFns == <<
  [name |-> "Lunar equilibrium (Trask, 1966)", type |-> "polynomial", coef |-> <<"-1.1", "-2.0">>, range |-> <<"0.001", "1000.0">>, h |-> <<>>, i1 |-> 0],
  [name |-> "Hartmann (1984)", type |-> "polynomial", coef |-> <<"-1.14", "-1.83">>, range |-> <<"0.001", "1000.0">>, h |-> <<>>, i1 |-> 0] >>
EpochSystems == <<
  [name |-> "Moon, Wilhelms (1987)", epoch |-> <<"Copernican", "Eratosthenian", "Late Imbrian", "Early Imbrian", "Nectarian", "Pre-Nectarian">>, time |-> <<"0.0", "1.1", "3.2", "3.8", "3.85", "3.92">>, ref |-> <<>>, density |-> <<>>],
  [name |-> "Moon, Guo et al (2024)", epoch |-> <<"Copernican", "Eratosthenian", "Late Imbrian", "Early Imbrian", "Nectarian", "Aitkenian", "Magma-oceanian">>, time |-> <<"0.0", "0.8", "3.16", "3.8", "3.85", "3.92", "4.31">>, ref |-> <<>>, density |-> <<>>],
  [name |-> "Mars, Michael (2013)", epoch |-> <<"Late Amazonian", "Middle Amazonian", "Early Amazonian", "Late Hesperian", "Early Hesperian", "Late Noachian", "Middle Noachian", "Early Noachian">>, time |-> <<>>, ref |-> <<"1.0", "1.0", "1.0", "5.0", "5.0", "16.0", "16.0">>, density |-> <<"160.0", "600.0", "2100.0", "125.0", "200.0", "100.0", "200.0">>] >>
=============================================================================
