// generated by evaluating the models at q = 0 on the pinned tree, compared with the .kindsl/.dtdsl/urdf models
#pragma once
#include "robot_access.h"
static const LinkData HYA_links[] = {
    {"fr_Shoulder_AA", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }, 2.688, {-0.000196, -0.003091, 0.17763901, }, {0.08980614, -0.000613, -0.000491221, -0.000613, 0.08953714, 0.0005849322, -0.000491221, 0.0005849322, 0.007629, }},
    {"fr_Shoulder_FE", 0, {1, 0, 0, 0, 0, 0, -1, 0, 0, 1, 0, 0.178, }, 2.5924191, {0.113166206, -0.023382, 0.003832, }, {0.039002996, 0.0055279857, -0.022851627, 0.0055279857, 0.08585553, -0.002752, -0.022851627, -0.002752, 0.051393528, }},
    {"fr_Humerus_R", 1, {0, 0, 1, 0.112, 0, 1, 0, 0, -1, 0, 0, 0, }, 2.327, {-0.0023899989, 0.00618, 0.278456, }, {0.20236395, 5.399998e-05, -0.011715295, 5.399998e-05, 0.20986895, -0.0037997814, -0.011715295, -0.0037997814, 0.010329999, }},
    {"fr_Elbow_FE", 2, {0, 0, -1, 0, 0, 1, 0, 0, 1, 0, 0, 0.304, }, 1.7423722, {0.09200001, -0.005, 8.74227e-10, }, {0.081661, 0.0036857284, -0.00021200017, 0.0036857284, 0.01828449, -0.0022920002, -0.00021200017, -0.0022920002, 0.09570849, }},
    {"fr_Wrist_R", 3, {0, 0, 1, 0.112, 0, 1, 0, 0, -1, 0, 0, 0, }, 2.1032, {0, 0, 0.0275, }, {0.019432, -0.001387, -0.012652, -0.001387, 0.029115, -0.001243, -0.012652, -0.001243, 0.011046, }},
    {"fr_Wrist_FE", 4, {0, 1, 0, 0.02075, 0, 0, 1, 0, 1, 0, 0, 0.184, }, 1.547475, {0.025, 0, 0, }, {0.010737, 0.000198, 1.5e-05, 0.000198, 0.003227, -0.000829, 1.5e-05, -0.000829, 0.009277, }},
};
static const FrameData HYA_frames[] = {
    {"fr_EFE", 2, {0, 0, -1, 0, 0, 1, 0, 0, 1, 0, 0, 0.304, }},
    {"fr_Elbow_FE", 3, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Elbow_FE_COM", 3, {1, 0, 0, -0.1466, 0, 1, 0, -0.01125, 0, 0, 1, 0.00102, }},
    {"fr_Elbow_FE_CTR", 3, {1, 0, 0, 0.056, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_HR", 1, {0, 0, 1, 0.112, 0, 1, 0, 0, -1, 0, 0, 0, }},
    {"fr_Humerus_R", 2, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Humerus_R_COM", 2, {1, 0, 0, -0.00239, 0, 1, 0, 0.00618, 0, 0, 1, -0.02554, }},
    {"fr_Humerus_R_CTR", 2, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0.152, }},
    {"fr_HyABase", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_SAA", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_SFE", 0, {1, 0, 0, 0, 0, 0, -1, 0, 0, 1, 0, 0.178, }},
    {"fr_Shoulder_AA", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Shoulder_AA_COM", 0, {1, 0, 0, -0.0002, 0, 1, 0, -0.00036, 0, 0, 1, 0.00309, }},
    {"fr_Shoulder_AA_CTR", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0.089, }},
    {"fr_Shoulder_FE", 1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Shoulder_FE_COM", 1, {1, 0, 0, -0.00383, 0, 1, 0, -0.02338, 0, 0, 1, 0.00117, }},
    {"fr_Shoulder_FE_CTR", 1, {1, 0, 0, 0.056, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_WFE", 4, {0, 1, 0, 0.02075, 0, 0, 1, 0, 1, 0, 0, 0.184, }},
    {"fr_WR", 3, {0, 0, 1, 0.112, 0, 1, 0, 0, -1, 0, 0, 0, }},
    {"fr_Wrist_FE", 5, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Wrist_FE_COM", 5, {1, 0, 0, -0.07876, 0, 1, 0, -0.01063, 0, 0, 1, -0.00084, }},
    {"fr_Wrist_R", 4, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Wrist_R_COM", 4, {1, 0, 0, 0.0004, 0, 1, 0, -0.00261, 0, 0, 1, -0.02317, }},
    {"fr_Wrist_R_CTR", 4, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0.092, }},
    {"fr_ee", 5, {1, 0, 0, 0.03, 0, 1, 0, 0, 0, 0, 1, 0, }},
};
static const LinkData HYQ_links[] = {
    {"fr_LF_hipassembly", -1, {0, 0, -1, 0.3735, 0, -1, 0, 0.207, -1, 0, 0, 0, }, 3.44, {0.04263, 0, 0.16931, }, {0.134705, -3.6e-05, -0.022734, -3.6e-05, 0.144171, -5.1e-05, -0.022734, -5.1e-05, 0.011033, }},
    {"fr_LF_upperleg", 0, {1, 0, 0, 0.08, 0, 0, -1, 0, 0, 1, 0, 0, }, 3.146, {0.15074, -0.02625, 0, }, {0.005495, 0.007418, 0.000102, 0.007418, 0.087136, 2.1e-05, 0.000102, 2.1e-05, 0.089871, }},
    {"fr_LF_lowerleg", 1, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }, 0.881, {0.1254, 0.0005, -0.0001, }, {0.000468, 0, 0, 0, 0.026409, 0, 0, 0, 0.026181, }},
    {"fr_RF_hipassembly", -1, {0, 0, 1, 0.3735, 0, 1, 0, -0.207, -1, 0, 0, 0, }, 3.44, {0.04263, 0, -0.16931, }, {0.134705, 3.6e-05, 0.022734, 3.6e-05, 0.144171, -5.1e-05, 0.022734, -5.1e-05, 0.011033, }},
    {"fr_RF_upperleg", 3, {1, 0, 0, 0.08, 0, 0, 1, 0, 0, -1, 0, 0, }, 3.146, {0.15074, -0.02625, 0, }, {0.005495, 0.007418, 0.000102, 0.007418, 0.087136, 2.1e-05, 0.000102, 2.1e-05, 0.089871, }},
    {"fr_RF_lowerleg", 4, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }, 0.881, {0.1254, 0.0005, -0.0001, }, {0.000468, 0, 0, 0, 0.026409, 0, 0, 0, 0.026181, }},
    {"fr_LH_hipassembly", -1, {0, 0, -1, -0.3735, 0, -1, 0, 0.207, -1, 0, 0, 0, }, 3.44, {0.04263, 0, -0.16931, }, {0.134705, 3.6e-05, 0.022734, 3.6e-05, 0.144171, -5.1e-05, 0.022734, -5.1e-05, 0.011033, }},
    {"fr_LH_upperleg", 6, {1, 0, 0, 0.08, 0, 0, -1, 0, 0, 1, 0, 0, }, 3.146, {0.15074, 0.02625, 0, }, {0.005495, -0.007418, -0.000102, -0.007418, 0.087136, 2.1e-05, -0.000102, 2.1e-05, 0.089871, }},
    {"fr_LH_lowerleg", 7, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }, 0.881, {0.125, -0.001, 0, }, {0.000468, 0, 0, 0, 0.026409, 0, 0, 0, 0.026181, }},
    {"fr_RH_hipassembly", -1, {0, 0, 1, -0.3735, 0, 1, 0, -0.207, -1, 0, 0, 0, }, 3.44, {0.04263, 0, 0.16931, }, {0.134705, -3.6e-05, -0.022734, -3.6e-05, 0.144171, -5.1e-05, -0.022734, -5.1e-05, 0.011033, }},
    {"fr_RH_upperleg", 9, {1, 0, 0, 0.08, 0, 0, 1, 0, 0, -1, 0, 0, }, 3.146, {0.15074, 0.02625, 0, }, {0.005495, -0.007418, -0.000102, -0.007418, 0.087136, 2.1e-05, -0.000102, 2.1e-05, 0.089871, }},
    {"fr_RH_lowerleg", 10, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }, 0.881, {0.1254, -0.0005, 0.0001, }, {0.000468, 0, 0, 0, 0.026409, 0, 0, 0, 0.026181, }},
};
static const FrameData HYQ_frames[] = {
    {"LF_hipassemblyCOM", 0, {1, 0, 0, 0.043, 0, 1, 0, 0, 0, 0, 1, 0.169, }},
    {"LF_lowerlegCOM", 2, {1, 0, 0, 0.125, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"LF_upperlegCOM", 1, {1, 0, 0, 0.151, 0, 1, 0, -0.026, 0, 0, 1, 0, }},
    {"LH_hipassemblyCOM", 6, {1, 0, 0, 0.043, 0, 1, 0, 0, 0, 0, 1, -0.169, }},
    {"LH_lowerlegCOM", 8, {1, 0, 0, 0.125, 0, 1, 0, -0.001, 0, 0, 1, 0, }},
    {"LH_upperlegCOM", 7, {1, 0, 0, 0.151, 0, 1, 0, 0.026, 0, 0, 1, 0, }},
    {"RF_hipassemblyCOM", 3, {1, 0, 0, 0.043, 0, 1, 0, 0, 0, 0, 1, -0.169, }},
    {"RF_lowerlegCOM", 5, {1, 0, 0, 0.125, 0, 1, 0, 0.001, 0, 0, 1, 0, }},
    {"RF_upperlegCOM", 4, {1, 0, 0, 0.151, 0, 1, 0, -0.026, 0, 0, 1, 0, }},
    {"RH_hipassemblyCOM", 9, {1, 0, 0, 0.043, 0, 1, 0, 0, 0, 0, 1, 0.169, }},
    {"RH_lowerlegCOM", 11, {1, 0, 0, 0.1254, 0, 1, 0, -0.0005, 0, 0, 1, 0, }},
    {"RH_upperlegCOM", 10, {1, 0, 0, 0.151, 0, 1, 0, 0.026, 0, 0, 1, 0, }},
    {"fr_LF_HAA", -1, {0, 0, -1, 0.3735, 0, -1, 0, 0.207, -1, 0, 0, 0, }},
    {"fr_LF_HFE", 0, {1, 0, 0, 0.08, 0, 0, -1, 0, 0, 1, 0, 0, }},
    {"fr_LF_KFE", 1, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LF_foot", 2, {1, 0, 0, 0.33, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LF_hipassembly", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LF_lowerleg", 2, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LF_upperleg", 1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LH_HAA", -1, {0, 0, -1, -0.3735, 0, -1, 0, 0.207, -1, 0, 0, 0, }},
    {"fr_LH_HFE", 6, {1, 0, 0, 0.08, 0, 0, -1, 0, 0, 1, 0, 0, }},
    {"fr_LH_KFE", 7, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LH_foot", 8, {1, 0, 0, 0.33, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LH_hipassembly", 6, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LH_lowerleg", 8, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_LH_upperleg", 7, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RF_HAA", -1, {0, 0, 1, 0.3735, 0, 1, 0, -0.207, -1, 0, 0, 0, }},
    {"fr_RF_HFE", 3, {1, 0, 0, 0.08, 0, 0, 1, 0, 0, -1, 0, 0, }},
    {"fr_RF_KFE", 4, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RF_foot", 5, {1, 0, 0, 0.33, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RF_hipassembly", 3, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RF_lowerleg", 5, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RF_upperleg", 4, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RH_HAA", -1, {0, 0, 1, -0.3735, 0, 1, 0, -0.207, -1, 0, 0, 0, }},
    {"fr_RH_HFE", 9, {1, 0, 0, 0.08, 0, 0, 1, 0, 0, -1, 0, 0, }},
    {"fr_RH_KFE", 10, {1, 0, 0, 0.35, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RH_foot", 11, {1, 0, 0, 0.33, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RH_hipassembly", 9, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RH_lowerleg", 11, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_RH_upperleg", 10, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_trunk", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
};
static const LinkData INVERTEDPENDULUM_links[] = {
    {"fr_Link1", -1, {0, 0, 1, 0, 0, -1, 0, 0, 1, 0, 0, 0, }, 1.811, {0.293, 0, 0, }, {0.00047, 0, 0, 0, 0.15594256, 0, 0, 0, 0.16452757, }},
};
static const FrameData INVERTEDPENDULUM_frames[] = {
    {"fr_InvertedPendulumBase", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Joint1", -1, {0, 0, 1, 0, 0, -1, 0, 0, 1, 0, 0, 0, }},
    {"fr_Link1", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_ee", 0, {1, 0, 0, 0.435, 0, 1, 0, 0, 0, 0, 1, 0, }},
};
static const LinkData DOUBLEINVERTEDPENDULUM_links[] = {
    {"fr_Link1", -1, {0, 0, 1, 0, 0, -1, 0, 0, 1, 0, 0, 0, }, 1, {0.5, 0, 0, }, {0.0005, 0, 0, 0, 0.251, 2.1855e-11, 0, 2.1855e-11, 0.2505, }},
    {"fr_Link2", 0, {1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, }, 1, {0.5, 0, 0, }, {0.0005, 0, 0, 0, 0.2505, 0, 0, 0, 0.251, }},
};
static const FrameData DOUBLEINVERTEDPENDULUM_frames[] = {
    {"fr_DoubleInvertedPendulumBase", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Joint1", -1, {0, 0, 1, 0, 0, -1, 0, 0, 1, 0, 0, 0, }},
    {"fr_Joint2", 0, {1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Link1", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_Link2", 1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_ee", 1, {1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, }},
};
static const LinkData QUADROTORWITHLOAD_links[] = {
    {"fr_link1", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }, 0.025, {0, 0, -0.05, }, {2.075e-05, 0, 0, 0, 1e-06, 0, 0, 0, 2.075e-05, }},
    {"fr_link2", 0, {0, 1, 0, 0, 0, 0, -1, 0, -1, 0, 0, -0.1, }, 0.1, {0.35, 0, 0, }, {0.004084, 0, 0, 0, 0.004084, 0, 0, 0, 2.5e-06, }},
};
static const FrameData QUADROTORWITHLOAD_frames[] = {
    {"fr_body", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_com0", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_com1", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, -0.05, }},
    {"fr_ee", 1, {1, 0, 0, 0.7, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_jA", -1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_jB", 0, {0, 1, 0, 0, 0, 0, -1, 0, -1, 0, 0, -0.1, }},
    {"fr_link1", 0, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
    {"fr_link2", 1, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, }},
};
