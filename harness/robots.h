// generated by tools/genmodels.py
#pragma once
#define HYA_NS ct_HyA
#define HYA_BASE HyABase
#define HYA_LINKS(X) \
    X(Shoulder_AA, HyABase) \
    X(Shoulder_FE, Shoulder_AA) \
    X(Humerus_R, Shoulder_FE) \
    X(Elbow_FE, Humerus_R) \
    X(Wrist_R, Elbow_FE) \
    X(Wrist_FE, Wrist_R) \

#define HYA_HOMOGENEOUS(X) \
    X(fr_HyABase, fr_Shoulder_AA) \
    X(fr_HyABase, fr_Shoulder_FE) \
    X(fr_HyABase, fr_Humerus_R) \
    X(fr_HyABase, fr_Elbow_FE) \
    X(fr_HyABase, fr_Wrist_R) \
    X(fr_HyABase, fr_Wrist_FE) \
    X(fr_HyABase, fr_ee) \
    X(fr_HyABase, fr_Shoulder_AA_COM) \
    X(fr_HyABase, fr_Shoulder_FE_COM) \
    X(fr_HyABase, fr_Humerus_R_COM) \
    X(fr_HyABase, fr_Elbow_FE_COM) \
    X(fr_HyABase, fr_Wrist_R_COM) \
    X(fr_HyABase, fr_Wrist_FE_COM) \
    X(fr_HyABase, fr_Shoulder_AA_CTR) \
    X(fr_HyABase, fr_Shoulder_FE_CTR) \
    X(fr_HyABase, fr_Humerus_R_CTR) \
    X(fr_HyABase, fr_Elbow_FE_CTR) \
    X(fr_HyABase, fr_Wrist_R_CTR) \
    X(fr_Shoulder_FE, fr_Wrist_FE) \
    X(fr_Humerus_R, fr_Wrist_FE) \
    X(fr_Elbow_FE, fr_Wrist_FE) \
    X(fr_Wrist_R, fr_Wrist_FE) \
    X(fr_Wrist_FE, fr_Shoulder_FE) \
    X(fr_Shoulder_FE, fr_ee) \
    X(fr_Humerus_R, fr_ee) \
    X(fr_Elbow_FE, fr_ee) \
    X(fr_Wrist_R, fr_ee) \
    X(fr_Wrist_FE, fr_ee) \
    X(fr_Shoulder_AA, fr_HyABase) \
    X(fr_Shoulder_FE, fr_HyABase) \
    X(fr_Humerus_R, fr_HyABase) \
    X(fr_Elbow_FE, fr_HyABase) \
    X(fr_Wrist_R, fr_HyABase) \
    X(fr_Wrist_FE, fr_HyABase) \
    X(fr_ee, fr_HyABase) \
    X(fr_HyABase, fr_SAA) \
    X(fr_HyABase, fr_SFE) \
    X(fr_HyABase, fr_HR) \
    X(fr_HyABase, fr_EFE) \
    X(fr_HyABase, fr_WR) \
    X(fr_HyABase, fr_WFE) \
    X(fr_Shoulder_FE, fr_Shoulder_AA) \
    X(fr_Shoulder_AA, fr_Shoulder_FE) \
    X(fr_Humerus_R, fr_Shoulder_FE) \
    X(fr_Shoulder_FE, fr_Humerus_R) \
    X(fr_Elbow_FE, fr_Humerus_R) \
    X(fr_Humerus_R, fr_Elbow_FE) \
    X(fr_Wrist_R, fr_Elbow_FE) \
    X(fr_Elbow_FE, fr_Wrist_R) \
    X(fr_Wrist_FE, fr_Wrist_R) \

#define HYA_MOTION(X) \
    X(fr_HyABase, fr_Shoulder_AA) \
    X(fr_HyABase, fr_Shoulder_FE) \
    X(fr_HyABase, fr_Humerus_R) \
    X(fr_HyABase, fr_Elbow_FE) \
    X(fr_HyABase, fr_Wrist_R) \
    X(fr_HyABase, fr_Wrist_FE) \
    X(fr_HyABase, fr_ee) \
    X(fr_HyABase, fr_Shoulder_AA_COM) \
    X(fr_HyABase, fr_Shoulder_FE_COM) \
    X(fr_HyABase, fr_Humerus_R_COM) \
    X(fr_HyABase, fr_Elbow_FE_COM) \
    X(fr_HyABase, fr_Wrist_R_COM) \
    X(fr_HyABase, fr_Wrist_FE_COM) \
    X(fr_HyABase, fr_Shoulder_AA_CTR) \
    X(fr_HyABase, fr_Shoulder_FE_CTR) \
    X(fr_HyABase, fr_Humerus_R_CTR) \
    X(fr_HyABase, fr_Elbow_FE_CTR) \
    X(fr_HyABase, fr_Wrist_R_CTR) \
    X(fr_Shoulder_FE, fr_Wrist_FE) \
    X(fr_Humerus_R, fr_Wrist_FE) \
    X(fr_Elbow_FE, fr_Wrist_FE) \
    X(fr_Wrist_R, fr_Wrist_FE) \
    X(fr_Wrist_FE, fr_Shoulder_FE) \
    X(fr_Shoulder_FE, fr_ee) \
    X(fr_Humerus_R, fr_ee) \
    X(fr_Elbow_FE, fr_ee) \
    X(fr_Wrist_R, fr_ee) \
    X(fr_Wrist_FE, fr_ee) \
    X(fr_Shoulder_AA, fr_HyABase) \
    X(fr_Shoulder_FE, fr_HyABase) \
    X(fr_Humerus_R, fr_HyABase) \
    X(fr_Elbow_FE, fr_HyABase) \
    X(fr_Wrist_R, fr_HyABase) \
    X(fr_Wrist_FE, fr_HyABase) \
    X(fr_ee, fr_HyABase) \
    X(fr_HyABase, fr_SAA) \
    X(fr_HyABase, fr_SFE) \
    X(fr_HyABase, fr_HR) \
    X(fr_HyABase, fr_EFE) \
    X(fr_HyABase, fr_WR) \
    X(fr_HyABase, fr_WFE) \
    X(fr_Shoulder_FE, fr_Shoulder_AA) \
    X(fr_Shoulder_AA, fr_Shoulder_FE) \
    X(fr_Humerus_R, fr_Shoulder_FE) \
    X(fr_Shoulder_FE, fr_Humerus_R) \
    X(fr_Elbow_FE, fr_Humerus_R) \
    X(fr_Humerus_R, fr_Elbow_FE) \
    X(fr_Wrist_R, fr_Elbow_FE) \
    X(fr_Elbow_FE, fr_Wrist_R) \
    X(fr_Wrist_FE, fr_Wrist_R) \

#define HYA_FORCE(X) \
    X(fr_HyABase, fr_Shoulder_AA) \
    X(fr_HyABase, fr_Shoulder_FE) \
    X(fr_HyABase, fr_Humerus_R) \
    X(fr_HyABase, fr_Elbow_FE) \
    X(fr_HyABase, fr_Wrist_R) \
    X(fr_HyABase, fr_Wrist_FE) \
    X(fr_HyABase, fr_ee) \
    X(fr_HyABase, fr_Shoulder_AA_COM) \
    X(fr_HyABase, fr_Shoulder_FE_COM) \
    X(fr_HyABase, fr_Humerus_R_COM) \
    X(fr_HyABase, fr_Elbow_FE_COM) \
    X(fr_HyABase, fr_Wrist_R_COM) \
    X(fr_HyABase, fr_Wrist_FE_COM) \
    X(fr_HyABase, fr_Shoulder_AA_CTR) \
    X(fr_HyABase, fr_Shoulder_FE_CTR) \
    X(fr_HyABase, fr_Humerus_R_CTR) \
    X(fr_HyABase, fr_Elbow_FE_CTR) \
    X(fr_HyABase, fr_Wrist_R_CTR) \
    X(fr_Shoulder_FE, fr_Wrist_FE) \
    X(fr_Humerus_R, fr_Wrist_FE) \
    X(fr_Elbow_FE, fr_Wrist_FE) \
    X(fr_Wrist_R, fr_Wrist_FE) \
    X(fr_Wrist_FE, fr_Shoulder_FE) \
    X(fr_Shoulder_FE, fr_ee) \
    X(fr_Humerus_R, fr_ee) \
    X(fr_Elbow_FE, fr_ee) \
    X(fr_Wrist_R, fr_ee) \
    X(fr_Wrist_FE, fr_ee) \
    X(fr_Shoulder_AA, fr_HyABase) \
    X(fr_Shoulder_FE, fr_HyABase) \
    X(fr_Humerus_R, fr_HyABase) \
    X(fr_Elbow_FE, fr_HyABase) \
    X(fr_Wrist_R, fr_HyABase) \
    X(fr_Wrist_FE, fr_HyABase) \
    X(fr_ee, fr_HyABase) \
    X(fr_HyABase, fr_SAA) \
    X(fr_HyABase, fr_SFE) \
    X(fr_HyABase, fr_HR) \
    X(fr_HyABase, fr_EFE) \
    X(fr_HyABase, fr_WR) \
    X(fr_HyABase, fr_WFE) \
    X(fr_Shoulder_FE, fr_Shoulder_AA) \
    X(fr_Shoulder_AA, fr_Shoulder_FE) \
    X(fr_Humerus_R, fr_Shoulder_FE) \
    X(fr_Shoulder_FE, fr_Humerus_R) \
    X(fr_Elbow_FE, fr_Humerus_R) \
    X(fr_Humerus_R, fr_Elbow_FE) \
    X(fr_Wrist_R, fr_Elbow_FE) \
    X(fr_Elbow_FE, fr_Wrist_R) \
    X(fr_Wrist_FE, fr_Wrist_R) \

#define HYA_JACOBIANS(X) \
    X(fr_HyABase, fr_ee) \
    X(fr_HyABase, fr_Wrist_FE_COM) \
    X(fr_HyABase, fr_Wrist_FE) \
    X(fr_HyABase, fr_Wrist_R_COM) \
    X(fr_HyABase, fr_Wrist_R) \
    X(fr_HyABase, fr_Wrist_R_CTR) \
    X(fr_HyABase, fr_Elbow_FE_COM) \
    X(fr_HyABase, fr_Elbow_FE) \
    X(fr_HyABase, fr_Elbow_FE_CTR) \
    X(fr_HyABase, fr_Humerus_R_COM) \
    X(fr_HyABase, fr_Humerus_R) \
    X(fr_HyABase, fr_Humerus_R_CTR) \
    X(fr_HyABase, fr_Shoulder_AA_CTR) \
    X(fr_HyABase, fr_Shoulder_FE_CTR) \

#define HYQ_NS HyQ
#define HYQ_BASE trunk
#define HYQ_LINKS(X) \
    X(LF_hipassembly, trunk) \
    X(LF_upperleg, LF_hipassembly) \
    X(LF_lowerleg, LF_upperleg) \
    X(RF_hipassembly, trunk) \
    X(RF_upperleg, RF_hipassembly) \
    X(RF_lowerleg, RF_upperleg) \
    X(LH_hipassembly, trunk) \
    X(LH_upperleg, LH_hipassembly) \
    X(LH_lowerleg, LH_upperleg) \
    X(RH_hipassembly, trunk) \
    X(RH_upperleg, RH_hipassembly) \
    X(RH_lowerleg, RH_upperleg) \

#define HYQ_HOMOGENEOUS(X) \
    X(fr_trunk, fr_LF_hipassembly) \
    X(fr_trunk, fr_RF_hipassembly) \
    X(fr_trunk, fr_LH_hipassembly) \
    X(fr_trunk, fr_RH_hipassembly) \
    X(fr_trunk, fr_LF_upperleg) \
    X(fr_trunk, fr_RF_upperleg) \
    X(fr_trunk, fr_LH_upperleg) \
    X(fr_trunk, fr_RH_upperleg) \
    X(fr_trunk, fr_LF_lowerleg) \
    X(fr_trunk, fr_RF_lowerleg) \
    X(fr_trunk, fr_LH_lowerleg) \
    X(fr_trunk, fr_RH_lowerleg) \
    X(fr_LF_hipassembly, fr_trunk) \
    X(fr_RF_hipassembly, fr_trunk) \
    X(fr_LH_hipassembly, fr_trunk) \
    X(fr_RH_hipassembly, fr_trunk) \
    X(fr_LF_upperleg, fr_trunk) \
    X(fr_RF_upperleg, fr_trunk) \
    X(fr_LH_upperleg, fr_trunk) \
    X(fr_RH_upperleg, fr_trunk) \
    X(fr_LF_lowerleg, fr_trunk) \
    X(fr_RF_lowerleg, fr_trunk) \
    X(fr_LH_lowerleg, fr_trunk) \
    X(fr_RH_lowerleg, fr_trunk) \
    X(fr_trunk, LF_hipassemblyCOM) \
    X(fr_trunk, RF_hipassemblyCOM) \
    X(fr_trunk, LH_hipassemblyCOM) \
    X(fr_trunk, RH_hipassemblyCOM) \
    X(fr_trunk, LF_upperlegCOM) \
    X(fr_trunk, RF_upperlegCOM) \
    X(fr_trunk, LH_upperlegCOM) \
    X(fr_trunk, RH_upperlegCOM) \
    X(fr_trunk, LF_lowerlegCOM) \
    X(fr_trunk, RF_lowerlegCOM) \
    X(fr_trunk, LH_lowerlegCOM) \
    X(fr_trunk, RH_lowerlegCOM) \
    X(fr_LF_foot, fr_LF_lowerleg) \
    X(fr_RF_foot, fr_RF_lowerleg) \
    X(fr_LH_foot, fr_LH_lowerleg) \
    X(fr_RH_foot, fr_RH_lowerleg) \
    X(fr_trunk, fr_LF_foot) \
    X(fr_trunk, fr_RF_foot) \
    X(fr_trunk, fr_LH_foot) \
    X(fr_trunk, fr_RH_foot) \
    X(fr_LF_foot, fr_trunk) \
    X(fr_RF_foot, fr_trunk) \
    X(fr_LH_foot, fr_trunk) \
    X(fr_RH_foot, fr_trunk) \
    X(fr_trunk, fr_LF_HAA) \
    X(fr_trunk, fr_RF_HAA) \
    X(fr_trunk, fr_LH_HAA) \
    X(fr_trunk, fr_RH_HAA) \
    X(fr_trunk, fr_LF_HFE) \
    X(fr_trunk, fr_RF_HFE) \
    X(fr_trunk, fr_LH_HFE) \
    X(fr_trunk, fr_RH_HFE) \
    X(fr_trunk, fr_LF_KFE) \
    X(fr_trunk, fr_RF_KFE) \
    X(fr_trunk, fr_LH_KFE) \
    X(fr_trunk, fr_RH_KFE) \
    X(fr_LF_upperleg, fr_LF_hipassembly) \
    X(fr_LF_hipassembly, fr_LF_upperleg) \
    X(fr_LF_lowerleg, fr_LF_upperleg) \
    X(fr_LF_upperleg, fr_LF_lowerleg) \
    X(fr_RF_upperleg, fr_RF_hipassembly) \
    X(fr_RF_hipassembly, fr_RF_upperleg) \
    X(fr_RF_lowerleg, fr_RF_upperleg) \
    X(fr_RF_upperleg, fr_RF_lowerleg) \
    X(fr_LH_upperleg, fr_LH_hipassembly) \
    X(fr_LH_hipassembly, fr_LH_upperleg) \
    X(fr_LH_lowerleg, fr_LH_upperleg) \
    X(fr_LH_upperleg, fr_LH_lowerleg) \
    X(fr_RH_upperleg, fr_RH_hipassembly) \
    X(fr_RH_hipassembly, fr_RH_upperleg) \
    X(fr_RH_lowerleg, fr_RH_upperleg) \
    X(fr_RH_upperleg, fr_RH_lowerleg) \

#define HYQ_MOTION(X) \
    X(fr_trunk, fr_LF_hipassembly) \
    X(fr_trunk, fr_RF_hipassembly) \
    X(fr_trunk, fr_LH_hipassembly) \
    X(fr_trunk, fr_RH_hipassembly) \
    X(fr_trunk, fr_LF_upperleg) \
    X(fr_trunk, fr_RF_upperleg) \
    X(fr_trunk, fr_LH_upperleg) \
    X(fr_trunk, fr_RH_upperleg) \
    X(fr_trunk, fr_LF_lowerleg) \
    X(fr_trunk, fr_RF_lowerleg) \
    X(fr_trunk, fr_LH_lowerleg) \
    X(fr_trunk, fr_RH_lowerleg) \
    X(fr_LF_hipassembly, fr_trunk) \
    X(fr_RF_hipassembly, fr_trunk) \
    X(fr_LH_hipassembly, fr_trunk) \
    X(fr_RH_hipassembly, fr_trunk) \
    X(fr_LF_upperleg, fr_trunk) \
    X(fr_RF_upperleg, fr_trunk) \
    X(fr_LH_upperleg, fr_trunk) \
    X(fr_RH_upperleg, fr_trunk) \
    X(fr_LF_lowerleg, fr_trunk) \
    X(fr_RF_lowerleg, fr_trunk) \
    X(fr_LH_lowerleg, fr_trunk) \
    X(fr_RH_lowerleg, fr_trunk) \
    X(fr_trunk, LF_hipassemblyCOM) \
    X(fr_trunk, RF_hipassemblyCOM) \
    X(fr_trunk, LH_hipassemblyCOM) \
    X(fr_trunk, RH_hipassemblyCOM) \
    X(fr_trunk, LF_upperlegCOM) \
    X(fr_trunk, RF_upperlegCOM) \
    X(fr_trunk, LH_upperlegCOM) \
    X(fr_trunk, RH_upperlegCOM) \
    X(fr_trunk, LF_lowerlegCOM) \
    X(fr_trunk, RF_lowerlegCOM) \
    X(fr_trunk, LH_lowerlegCOM) \
    X(fr_trunk, RH_lowerlegCOM) \
    X(fr_LF_foot, fr_LF_lowerleg) \
    X(fr_RF_foot, fr_RF_lowerleg) \
    X(fr_LH_foot, fr_LH_lowerleg) \
    X(fr_RH_foot, fr_RH_lowerleg) \
    X(fr_trunk, fr_LF_foot) \
    X(fr_trunk, fr_RF_foot) \
    X(fr_trunk, fr_LH_foot) \
    X(fr_trunk, fr_RH_foot) \
    X(fr_LF_foot, fr_trunk) \
    X(fr_RF_foot, fr_trunk) \
    X(fr_LH_foot, fr_trunk) \
    X(fr_RH_foot, fr_trunk) \
    X(fr_trunk, fr_LF_HAA) \
    X(fr_trunk, fr_RF_HAA) \
    X(fr_trunk, fr_LH_HAA) \
    X(fr_trunk, fr_RH_HAA) \
    X(fr_trunk, fr_LF_HFE) \
    X(fr_trunk, fr_RF_HFE) \
    X(fr_trunk, fr_LH_HFE) \
    X(fr_trunk, fr_RH_HFE) \
    X(fr_trunk, fr_LF_KFE) \
    X(fr_trunk, fr_RF_KFE) \
    X(fr_trunk, fr_LH_KFE) \
    X(fr_trunk, fr_RH_KFE) \
    X(fr_LF_upperleg, fr_LF_hipassembly) \
    X(fr_LF_hipassembly, fr_LF_upperleg) \
    X(fr_LF_lowerleg, fr_LF_upperleg) \
    X(fr_LF_upperleg, fr_LF_lowerleg) \
    X(fr_RF_upperleg, fr_RF_hipassembly) \
    X(fr_RF_hipassembly, fr_RF_upperleg) \
    X(fr_RF_lowerleg, fr_RF_upperleg) \
    X(fr_RF_upperleg, fr_RF_lowerleg) \
    X(fr_LH_upperleg, fr_LH_hipassembly) \
    X(fr_LH_hipassembly, fr_LH_upperleg) \
    X(fr_LH_lowerleg, fr_LH_upperleg) \
    X(fr_LH_upperleg, fr_LH_lowerleg) \
    X(fr_RH_upperleg, fr_RH_hipassembly) \
    X(fr_RH_hipassembly, fr_RH_upperleg) \
    X(fr_RH_lowerleg, fr_RH_upperleg) \
    X(fr_RH_upperleg, fr_RH_lowerleg) \

#define HYQ_FORCE(X) \
    X(fr_trunk, fr_LF_hipassembly) \
    X(fr_trunk, fr_RF_hipassembly) \
    X(fr_trunk, fr_LH_hipassembly) \
    X(fr_trunk, fr_RH_hipassembly) \
    X(fr_trunk, fr_LF_upperleg) \
    X(fr_trunk, fr_RF_upperleg) \
    X(fr_trunk, fr_LH_upperleg) \
    X(fr_trunk, fr_RH_upperleg) \
    X(fr_trunk, fr_LF_lowerleg) \
    X(fr_trunk, fr_RF_lowerleg) \
    X(fr_trunk, fr_LH_lowerleg) \
    X(fr_trunk, fr_RH_lowerleg) \
    X(fr_LF_hipassembly, fr_trunk) \
    X(fr_RF_hipassembly, fr_trunk) \
    X(fr_LH_hipassembly, fr_trunk) \
    X(fr_RH_hipassembly, fr_trunk) \
    X(fr_LF_upperleg, fr_trunk) \
    X(fr_RF_upperleg, fr_trunk) \
    X(fr_LH_upperleg, fr_trunk) \
    X(fr_RH_upperleg, fr_trunk) \
    X(fr_LF_lowerleg, fr_trunk) \
    X(fr_RF_lowerleg, fr_trunk) \
    X(fr_LH_lowerleg, fr_trunk) \
    X(fr_RH_lowerleg, fr_trunk) \
    X(fr_trunk, LF_hipassemblyCOM) \
    X(fr_trunk, RF_hipassemblyCOM) \
    X(fr_trunk, LH_hipassemblyCOM) \
    X(fr_trunk, RH_hipassemblyCOM) \
    X(fr_trunk, LF_upperlegCOM) \
    X(fr_trunk, RF_upperlegCOM) \
    X(fr_trunk, LH_upperlegCOM) \
    X(fr_trunk, RH_upperlegCOM) \
    X(fr_trunk, LF_lowerlegCOM) \
    X(fr_trunk, RF_lowerlegCOM) \
    X(fr_trunk, LH_lowerlegCOM) \
    X(fr_trunk, RH_lowerlegCOM) \
    X(fr_LF_foot, fr_LF_lowerleg) \
    X(fr_RF_foot, fr_RF_lowerleg) \
    X(fr_LH_foot, fr_LH_lowerleg) \
    X(fr_RH_foot, fr_RH_lowerleg) \
    X(fr_trunk, fr_LF_foot) \
    X(fr_trunk, fr_RF_foot) \
    X(fr_trunk, fr_LH_foot) \
    X(fr_trunk, fr_RH_foot) \
    X(fr_LF_foot, fr_trunk) \
    X(fr_RF_foot, fr_trunk) \
    X(fr_LH_foot, fr_trunk) \
    X(fr_RH_foot, fr_trunk) \
    X(fr_trunk, fr_LF_HAA) \
    X(fr_trunk, fr_RF_HAA) \
    X(fr_trunk, fr_LH_HAA) \
    X(fr_trunk, fr_RH_HAA) \
    X(fr_trunk, fr_LF_HFE) \
    X(fr_trunk, fr_RF_HFE) \
    X(fr_trunk, fr_LH_HFE) \
    X(fr_trunk, fr_RH_HFE) \
    X(fr_trunk, fr_LF_KFE) \
    X(fr_trunk, fr_RF_KFE) \
    X(fr_trunk, fr_LH_KFE) \
    X(fr_trunk, fr_RH_KFE) \
    X(fr_LF_upperleg, fr_LF_hipassembly) \
    X(fr_LF_hipassembly, fr_LF_upperleg) \
    X(fr_LF_lowerleg, fr_LF_upperleg) \
    X(fr_LF_upperleg, fr_LF_lowerleg) \
    X(fr_RF_upperleg, fr_RF_hipassembly) \
    X(fr_RF_hipassembly, fr_RF_upperleg) \
    X(fr_RF_lowerleg, fr_RF_upperleg) \
    X(fr_RF_upperleg, fr_RF_lowerleg) \
    X(fr_LH_upperleg, fr_LH_hipassembly) \
    X(fr_LH_hipassembly, fr_LH_upperleg) \
    X(fr_LH_lowerleg, fr_LH_upperleg) \
    X(fr_LH_upperleg, fr_LH_lowerleg) \
    X(fr_RH_upperleg, fr_RH_hipassembly) \
    X(fr_RH_hipassembly, fr_RH_upperleg) \
    X(fr_RH_lowerleg, fr_RH_upperleg) \
    X(fr_RH_upperleg, fr_RH_lowerleg) \

#define HYQ_JACOBIANS(X) \
    X(fr_trunk, LF_hipassemblyCOM) \
    X(fr_trunk, RF_hipassemblyCOM) \
    X(fr_trunk, LH_hipassemblyCOM) \
    X(fr_trunk, RH_hipassemblyCOM) \
    X(fr_trunk, LF_upperlegCOM) \
    X(fr_trunk, RF_upperlegCOM) \
    X(fr_trunk, LH_upperlegCOM) \
    X(fr_trunk, RH_upperlegCOM) \
    X(fr_trunk, LF_lowerlegCOM) \
    X(fr_trunk, RF_lowerlegCOM) \
    X(fr_trunk, LH_lowerlegCOM) \
    X(fr_trunk, RH_lowerlegCOM) \
    X(fr_trunk, fr_LF_foot) \
    X(fr_trunk, fr_RF_foot) \
    X(fr_trunk, fr_LH_foot) \
    X(fr_trunk, fr_RH_foot) \

#define INVERTEDPENDULUM_NS ct_InvertedPendulum
#define INVERTEDPENDULUM_BASE InvertedPendulumBase
#define INVERTEDPENDULUM_LINKS(X) \
    X(Link1, InvertedPendulumBase) \

#define INVERTEDPENDULUM_HOMOGENEOUS(X) \
    X(fr_InvertedPendulumBase, fr_Link1) \
    X(fr_InvertedPendulumBase, fr_ee) \
    X(fr_Link1, fr_InvertedPendulumBase) \
    X(fr_ee, fr_InvertedPendulumBase) \
    X(fr_InvertedPendulumBase, fr_Joint1) \

#define INVERTEDPENDULUM_MOTION(X) \
    X(fr_InvertedPendulumBase, fr_Link1) \
    X(fr_InvertedPendulumBase, fr_ee) \
    X(fr_Link1, fr_InvertedPendulumBase) \
    X(fr_ee, fr_InvertedPendulumBase) \
    X(fr_InvertedPendulumBase, fr_Joint1) \

#define INVERTEDPENDULUM_FORCE(X) \
    X(fr_InvertedPendulumBase, fr_Link1) \
    X(fr_InvertedPendulumBase, fr_ee) \
    X(fr_Link1, fr_InvertedPendulumBase) \
    X(fr_ee, fr_InvertedPendulumBase) \
    X(fr_InvertedPendulumBase, fr_Joint1) \

#define INVERTEDPENDULUM_JACOBIANS(X) \
    X(fr_InvertedPendulumBase, fr_Link1) \
    X(fr_InvertedPendulumBase, fr_ee) \

#define DOUBLEINVERTEDPENDULUM_NS ct_DoubleInvertedPendulum
#define DOUBLEINVERTEDPENDULUM_BASE DoubleInvertedPendulumBase
#define DOUBLEINVERTEDPENDULUM_LINKS(X) \
    X(Link1, DoubleInvertedPendulumBase) \
    X(Link2, Link1) \

#define DOUBLEINVERTEDPENDULUM_HOMOGENEOUS(X) \
    X(fr_DoubleInvertedPendulumBase, fr_Link1) \
    X(fr_DoubleInvertedPendulumBase, fr_Link2) \
    X(fr_DoubleInvertedPendulumBase, fr_ee) \
    X(fr_Link2, fr_DoubleInvertedPendulumBase) \
    X(fr_Link1, fr_DoubleInvertedPendulumBase) \
    X(fr_ee, fr_DoubleInvertedPendulumBase) \
    X(fr_DoubleInvertedPendulumBase, fr_Joint1) \
    X(fr_DoubleInvertedPendulumBase, fr_Joint2) \
    X(fr_Link2, fr_Link1) \
    X(fr_Link1, fr_Link2) \

#define DOUBLEINVERTEDPENDULUM_MOTION(X) \
    X(fr_DoubleInvertedPendulumBase, fr_Link1) \
    X(fr_DoubleInvertedPendulumBase, fr_Link2) \
    X(fr_DoubleInvertedPendulumBase, fr_ee) \
    X(fr_Link2, fr_DoubleInvertedPendulumBase) \
    X(fr_Link1, fr_DoubleInvertedPendulumBase) \
    X(fr_ee, fr_DoubleInvertedPendulumBase) \
    X(fr_DoubleInvertedPendulumBase, fr_Joint1) \
    X(fr_DoubleInvertedPendulumBase, fr_Joint2) \
    X(fr_Link2, fr_Link1) \
    X(fr_Link1, fr_Link2) \

#define DOUBLEINVERTEDPENDULUM_FORCE(X) \
    X(fr_DoubleInvertedPendulumBase, fr_Link1) \
    X(fr_DoubleInvertedPendulumBase, fr_Link2) \
    X(fr_DoubleInvertedPendulumBase, fr_ee) \
    X(fr_Link2, fr_DoubleInvertedPendulumBase) \
    X(fr_Link1, fr_DoubleInvertedPendulumBase) \
    X(fr_ee, fr_DoubleInvertedPendulumBase) \
    X(fr_DoubleInvertedPendulumBase, fr_Joint1) \
    X(fr_DoubleInvertedPendulumBase, fr_Joint2) \
    X(fr_Link2, fr_Link1) \
    X(fr_Link1, fr_Link2) \

#define DOUBLEINVERTEDPENDULUM_JACOBIANS(X) \
    X(fr_DoubleInvertedPendulumBase, fr_Link2) \
    X(fr_DoubleInvertedPendulumBase, fr_Link1) \
    X(fr_DoubleInvertedPendulumBase, fr_ee) \

#define QUADROTORWITHLOAD_NS ct_quadrotor
#define QUADROTORWITHLOAD_BASE body
#define QUADROTORWITHLOAD_LINKS(X) \
    X(link1, body) \
    X(link2, link1) \

#define QUADROTORWITHLOAD_HOMOGENEOUS(X) \
    X(fr_body, fr_link1) \
    X(fr_body, fr_link2) \
    X(fr_body, fr_ee) \
    X(fr_body, fr_com0) \
    X(fr_body, fr_com1) \
    X(fr_link1, fr_body) \
    X(fr_link2, fr_body) \
    X(fr_ee, fr_body) \
    X(fr_com0, fr_body) \
    X(fr_com1, fr_body) \
    X(fr_body, fr_jA) \
    X(fr_body, fr_jB) \
    X(fr_link2, fr_link1) \
    X(fr_link1, fr_link2) \

#define QUADROTORWITHLOAD_MOTION(X) \
    X(fr_body, fr_link1) \
    X(fr_body, fr_link2) \
    X(fr_body, fr_ee) \
    X(fr_body, fr_com0) \
    X(fr_body, fr_com1) \
    X(fr_link1, fr_body) \
    X(fr_link2, fr_body) \
    X(fr_ee, fr_body) \
    X(fr_com0, fr_body) \
    X(fr_com1, fr_body) \
    X(fr_body, fr_jA) \
    X(fr_body, fr_jB) \
    X(fr_link2, fr_link1) \
    X(fr_link1, fr_link2) \

#define QUADROTORWITHLOAD_FORCE(X) \
    X(fr_body, fr_link1) \
    X(fr_body, fr_link2) \
    X(fr_body, fr_ee) \
    X(fr_body, fr_com0) \
    X(fr_body, fr_com1) \
    X(fr_link1, fr_body) \
    X(fr_link2, fr_body) \
    X(fr_ee, fr_body) \
    X(fr_com0, fr_body) \
    X(fr_com1, fr_body) \
    X(fr_body, fr_jA) \
    X(fr_body, fr_jB) \
    X(fr_link2, fr_link1) \
    X(fr_link1, fr_link2) \

#define QUADROTORWITHLOAD_JACOBIANS(X) \
    X(fr_body, fr_ee) \

