// transforms, inverse pairs and Jacobians each generated robot model offers
#pragma once
#define TR_HyA(X) X(fr_Elbow_FE_X_fr_Humerus_R) X(fr_Elbow_FE_X_fr_HyABase) X(fr_Elbow_FE_X_fr_Wrist_FE) X(fr_Elbow_FE_X_fr_Wrist_R) X(fr_Elbow_FE_X_fr_ee) X(fr_Humerus_R_X_fr_Elbow_FE) X(fr_Humerus_R_X_fr_HyABase) X(fr_Humerus_R_X_fr_Shoulder_FE) X(fr_Humerus_R_X_fr_Wrist_FE) X(fr_Humerus_R_X_fr_ee) X(fr_HyABase_X_fr_EFE) X(fr_HyABase_X_fr_Elbow_FE) X(fr_HyABase_X_fr_Elbow_FE_COM) X(fr_HyABase_X_fr_Elbow_FE_CTR) X(fr_HyABase_X_fr_HR) X(fr_HyABase_X_fr_Humerus_R) X(fr_HyABase_X_fr_Humerus_R_COM) X(fr_HyABase_X_fr_Humerus_R_CTR) X(fr_HyABase_X_fr_SAA) X(fr_HyABase_X_fr_SFE) X(fr_HyABase_X_fr_Shoulder_AA) X(fr_HyABase_X_fr_Shoulder_AA_COM) X(fr_HyABase_X_fr_Shoulder_AA_CTR) X(fr_HyABase_X_fr_Shoulder_FE) X(fr_HyABase_X_fr_Shoulder_FE_COM) X(fr_HyABase_X_fr_Shoulder_FE_CTR) X(fr_HyABase_X_fr_WFE) X(fr_HyABase_X_fr_WR) X(fr_HyABase_X_fr_Wrist_FE) X(fr_HyABase_X_fr_Wrist_FE_COM) X(fr_HyABase_X_fr_Wrist_R) X(fr_HyABase_X_fr_Wrist_R_COM) X(fr_HyABase_X_fr_Wrist_R_CTR) X(fr_HyABase_X_fr_ee) X(fr_Shoulder_AA_X_fr_HyABase) X(fr_Shoulder_AA_X_fr_Shoulder_FE) X(fr_Shoulder_FE_X_fr_Humerus_R) X(fr_Shoulder_FE_X_fr_HyABase) X(fr_Shoulder_FE_X_fr_Shoulder_AA) X(fr_Shoulder_FE_X_fr_Wrist_FE) X(fr_Shoulder_FE_X_fr_ee) X(fr_Wrist_FE_X_fr_HyABase) X(fr_Wrist_FE_X_fr_Shoulder_FE) X(fr_Wrist_FE_X_fr_Wrist_R) X(fr_Wrist_FE_X_fr_ee) X(fr_Wrist_R_X_fr_Elbow_FE) X(fr_Wrist_R_X_fr_HyABase) X(fr_Wrist_R_X_fr_Wrist_FE) X(fr_Wrist_R_X_fr_ee) X(fr_ee_X_fr_HyABase)
#define INV_HyA(X) X(fr_Elbow_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_Elbow_FE) X(fr_Elbow_FE_X_fr_HyABase,fr_HyABase_X_fr_Elbow_FE) X(fr_Elbow_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_Elbow_FE) X(fr_Humerus_R_X_fr_HyABase,fr_HyABase_X_fr_Humerus_R) X(fr_Humerus_R_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_Humerus_R) X(fr_HyABase_X_fr_Shoulder_AA,fr_Shoulder_AA_X_fr_HyABase) X(fr_HyABase_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_HyABase) X(fr_HyABase_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_HyABase) X(fr_HyABase_X_fr_Wrist_R,fr_Wrist_R_X_fr_HyABase) X(fr_HyABase_X_fr_ee,fr_ee_X_fr_HyABase) X(fr_Shoulder_AA_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_Shoulder_AA) X(fr_Shoulder_FE_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_Shoulder_FE) X(fr_Wrist_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_Wrist_FE)
#define TRI_HyA(X) X(fr_Elbow_FE_X_fr_Humerus_R,fr_Elbow_FE_X_fr_HyABase,fr_HyABase_X_fr_Humerus_R) X(fr_Elbow_FE_X_fr_HyABase,fr_Elbow_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_HyABase) X(fr_Elbow_FE_X_fr_HyABase,fr_Elbow_FE_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_HyABase) X(fr_Elbow_FE_X_fr_HyABase,fr_Elbow_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_HyABase) X(fr_Elbow_FE_X_fr_HyABase,fr_Elbow_FE_X_fr_ee,fr_ee_X_fr_HyABase) X(fr_Elbow_FE_X_fr_Wrist_FE,fr_Elbow_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_Wrist_FE) X(fr_Elbow_FE_X_fr_Wrist_FE,fr_Elbow_FE_X_fr_HyABase,fr_HyABase_X_fr_Wrist_FE) X(fr_Elbow_FE_X_fr_Wrist_FE,fr_Elbow_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_Wrist_FE) X(fr_Elbow_FE_X_fr_Wrist_R,fr_Elbow_FE_X_fr_HyABase,fr_HyABase_X_fr_Wrist_R) X(fr_Elbow_FE_X_fr_Wrist_R,fr_Elbow_FE_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_Wrist_R) X(fr_Elbow_FE_X_fr_ee,fr_Elbow_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_ee) X(fr_Elbow_FE_X_fr_ee,fr_Elbow_FE_X_fr_HyABase,fr_HyABase_X_fr_ee) X(fr_Elbow_FE_X_fr_ee,fr_Elbow_FE_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_ee) X(fr_Elbow_FE_X_fr_ee,fr_Elbow_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_ee) X(fr_Humerus_R_X_fr_Elbow_FE,fr_Humerus_R_X_fr_HyABase,fr_HyABase_X_fr_Elbow_FE) X(fr_Humerus_R_X_fr_HyABase,fr_Humerus_R_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_HyABase) X(fr_Humerus_R_X_fr_HyABase,fr_Humerus_R_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_HyABase) X(fr_Humerus_R_X_fr_HyABase,fr_Humerus_R_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_HyABase) X(fr_Humerus_R_X_fr_HyABase,fr_Humerus_R_X_fr_ee,fr_ee_X_fr_HyABase) X(fr_Humerus_R_X_fr_Shoulder_FE,fr_Humerus_R_X_fr_HyABase,fr_HyABase_X_fr_Shoulder_FE) X(fr_Humerus_R_X_fr_Shoulder_FE,fr_Humerus_R_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_Shoulder_FE) X(fr_Humerus_R_X_fr_Wrist_FE,fr_Humerus_R_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_Wrist_FE) X(fr_Humerus_R_X_fr_Wrist_FE,fr_Humerus_R_X_fr_HyABase,fr_HyABase_X_fr_Wrist_FE) X(fr_Humerus_R_X_fr_Wrist_FE,fr_Humerus_R_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_Wrist_FE) X(fr_Humerus_R_X_fr_ee,fr_Humerus_R_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_ee) X(fr_Humerus_R_X_fr_ee,fr_Humerus_R_X_fr_HyABase,fr_HyABase_X_fr_ee) X(fr_Humerus_R_X_fr_ee,fr_Humerus_R_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_ee) X(fr_Humerus_R_X_fr_ee,fr_Humerus_R_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_ee) X(fr_HyABase_X_fr_Elbow_FE,fr_HyABase_X_fr_Humerus_R,fr_Humerus_R_X_fr_Elbow_FE) X(fr_HyABase_X_fr_Elbow_FE,fr_HyABase_X_fr_Wrist_R,fr_Wrist_R_X_fr_Elbow_FE) X(fr_HyABase_X_fr_Humerus_R,fr_HyABase_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_Humerus_R) X(fr_HyABase_X_fr_Humerus_R,fr_HyABase_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_Humerus_R) X(fr_HyABase_X_fr_Shoulder_AA,fr_HyABase_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_Shoulder_AA) X(fr_HyABase_X_fr_Shoulder_FE,fr_HyABase_X_fr_Humerus_R,fr_Humerus_R_X_fr_Shoulder_FE) X(fr_HyABase_X_fr_Shoulder_FE,fr_HyABase_X_fr_Shoulder_AA,fr_Shoulder_AA_X_fr_Shoulder_FE) X(fr_HyABase_X_fr_Shoulder_FE,fr_HyABase_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_Shoulder_FE) X(fr_HyABase_X_fr_Wrist_FE,fr_HyABase_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_Wrist_FE) X(fr_HyABase_X_fr_Wrist_FE,fr_HyABase_X_fr_Humerus_R,fr_Humerus_R_X_fr_Wrist_FE) X(fr_HyABase_X_fr_Wrist_FE,fr_HyABase_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_Wrist_FE) X(fr_HyABase_X_fr_Wrist_FE,fr_HyABase_X_fr_Wrist_R,fr_Wrist_R_X_fr_Wrist_FE) X(fr_HyABase_X_fr_Wrist_R,fr_HyABase_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_Wrist_R) X(fr_HyABase_X_fr_Wrist_R,fr_HyABase_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_Wrist_R) X(fr_HyABase_X_fr_ee,fr_HyABase_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_ee) X(fr_HyABase_X_fr_ee,fr_HyABase_X_fr_Humerus_R,fr_Humerus_R_X_fr_ee) X(fr_HyABase_X_fr_ee,fr_HyABase_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_ee) X(fr_HyABase_X_fr_ee,fr_HyABase_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_ee) X(fr_HyABase_X_fr_ee,fr_HyABase_X_fr_Wrist_R,fr_Wrist_R_X_fr_ee) X(fr_Shoulder_AA_X_fr_HyABase,fr_Shoulder_AA_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_HyABase) X(fr_Shoulder_AA_X_fr_Shoulder_FE,fr_Shoulder_AA_X_fr_HyABase,fr_HyABase_X_fr_Shoulder_FE) X(fr_Shoulder_FE_X_fr_Humerus_R,fr_Shoulder_FE_X_fr_HyABase,fr_HyABase_X_fr_Humerus_R) X(fr_Shoulder_FE_X_fr_HyABase,fr_Shoulder_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_HyABase) X(fr_Shoulder_FE_X_fr_HyABase,fr_Shoulder_FE_X_fr_Shoulder_AA,fr_Shoulder_AA_X_fr_HyABase) X(fr_Shoulder_FE_X_fr_HyABase,fr_Shoulder_FE_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_HyABase) X(fr_Shoulder_FE_X_fr_HyABase,fr_Shoulder_FE_X_fr_ee,fr_ee_X_fr_HyABase) X(fr_Shoulder_FE_X_fr_Shoulder_AA,fr_Shoulder_FE_X_fr_HyABase,fr_HyABase_X_fr_Shoulder_AA) X(fr_Shoulder_FE_X_fr_Wrist_FE,fr_Shoulder_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_Wrist_FE) X(fr_Shoulder_FE_X_fr_Wrist_FE,fr_Shoulder_FE_X_fr_HyABase,fr_HyABase_X_fr_Wrist_FE) X(fr_Shoulder_FE_X_fr_ee,fr_Shoulder_FE_X_fr_Humerus_R,fr_Humerus_R_X_fr_ee) X(fr_Shoulder_FE_X_fr_ee,fr_Shoulder_FE_X_fr_HyABase,fr_HyABase_X_fr_ee) X(fr_Shoulder_FE_X_fr_ee,fr_Shoulder_FE_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_ee) X(fr_Wrist_FE_X_fr_HyABase,fr_Wrist_FE_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_HyABase) X(fr_Wrist_FE_X_fr_HyABase,fr_Wrist_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_HyABase) X(fr_Wrist_FE_X_fr_HyABase,fr_Wrist_FE_X_fr_ee,fr_ee_X_fr_HyABase) X(fr_Wrist_FE_X_fr_Shoulder_FE,fr_Wrist_FE_X_fr_HyABase,fr_HyABase_X_fr_Shoulder_FE) X(fr_Wrist_FE_X_fr_Wrist_R,fr_Wrist_FE_X_fr_HyABase,fr_HyABase_X_fr_Wrist_R) X(fr_Wrist_FE_X_fr_ee,fr_Wrist_FE_X_fr_HyABase,fr_HyABase_X_fr_ee) X(fr_Wrist_FE_X_fr_ee,fr_Wrist_FE_X_fr_Shoulder_FE,fr_Shoulder_FE_X_fr_ee) X(fr_Wrist_FE_X_fr_ee,fr_Wrist_FE_X_fr_Wrist_R,fr_Wrist_R_X_fr_ee) X(fr_Wrist_R_X_fr_Elbow_FE,fr_Wrist_R_X_fr_HyABase,fr_HyABase_X_fr_Elbow_FE) X(fr_Wrist_R_X_fr_HyABase,fr_Wrist_R_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_HyABase) X(fr_Wrist_R_X_fr_HyABase,fr_Wrist_R_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_HyABase) X(fr_Wrist_R_X_fr_HyABase,fr_Wrist_R_X_fr_ee,fr_ee_X_fr_HyABase) X(fr_Wrist_R_X_fr_Wrist_FE,fr_Wrist_R_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_Wrist_FE) X(fr_Wrist_R_X_fr_Wrist_FE,fr_Wrist_R_X_fr_HyABase,fr_HyABase_X_fr_Wrist_FE) X(fr_Wrist_R_X_fr_ee,fr_Wrist_R_X_fr_Elbow_FE,fr_Elbow_FE_X_fr_ee) X(fr_Wrist_R_X_fr_ee,fr_Wrist_R_X_fr_HyABase,fr_HyABase_X_fr_ee) X(fr_Wrist_R_X_fr_ee,fr_Wrist_R_X_fr_Wrist_FE,fr_Wrist_FE_X_fr_ee)
#define JAC_HyA(X) X(fr_HyABase_J_fr_ee,fr_HyABase_X_fr_ee,0,6) X(fr_HyABase_J_fr_Wrist_FE_COM,fr_HyABase_X_fr_Wrist_FE_COM,0,6) X(fr_HyABase_J_fr_Wrist_FE,fr_HyABase_X_fr_Wrist_FE,0,6) X(fr_HyABase_J_fr_Wrist_R_COM,fr_HyABase_X_fr_Wrist_R_COM,0,5) X(fr_HyABase_J_fr_Wrist_R,fr_HyABase_X_fr_Wrist_R,0,5) X(fr_HyABase_J_fr_Wrist_R_CTR,fr_HyABase_X_fr_Wrist_R_CTR,0,5) X(fr_HyABase_J_fr_Elbow_FE_COM,fr_HyABase_X_fr_Elbow_FE_COM,0,4) X(fr_HyABase_J_fr_Elbow_FE,fr_HyABase_X_fr_Elbow_FE,0,4) X(fr_HyABase_J_fr_Elbow_FE_CTR,fr_HyABase_X_fr_Elbow_FE_CTR,0,4) X(fr_HyABase_J_fr_Humerus_R_COM,fr_HyABase_X_fr_Humerus_R_COM,0,3) X(fr_HyABase_J_fr_Humerus_R,fr_HyABase_X_fr_Humerus_R,0,3) X(fr_HyABase_J_fr_Humerus_R_CTR,fr_HyABase_X_fr_Humerus_R_CTR,0,3) X(fr_HyABase_J_fr_Shoulder_AA_CTR,fr_HyABase_X_fr_Shoulder_AA_CTR,0,1) X(fr_HyABase_J_fr_Shoulder_FE_CTR,fr_HyABase_X_fr_Shoulder_FE_CTR,0,2)
#define TR_HyQ(X) X(fr_LF_foot_X_fr_LF_lowerleg) X(fr_LF_foot_X_fr_trunk) X(fr_LF_hipassembly_X_fr_LF_upperleg) X(fr_LF_hipassembly_X_fr_trunk) X(fr_LF_lowerleg_X_fr_LF_upperleg) X(fr_LF_lowerleg_X_fr_trunk) X(fr_LF_upperleg_X_fr_LF_hipassembly) X(fr_LF_upperleg_X_fr_LF_lowerleg) X(fr_LF_upperleg_X_fr_trunk) X(fr_LH_foot_X_fr_LH_lowerleg) X(fr_LH_foot_X_fr_trunk) X(fr_LH_hipassembly_X_fr_LH_upperleg) X(fr_LH_hipassembly_X_fr_trunk) X(fr_LH_lowerleg_X_fr_LH_upperleg) X(fr_LH_lowerleg_X_fr_trunk) X(fr_LH_upperleg_X_fr_LH_hipassembly) X(fr_LH_upperleg_X_fr_LH_lowerleg) X(fr_LH_upperleg_X_fr_trunk) X(fr_RF_foot_X_fr_RF_lowerleg) X(fr_RF_foot_X_fr_trunk) X(fr_RF_hipassembly_X_fr_RF_upperleg) X(fr_RF_hipassembly_X_fr_trunk) X(fr_RF_lowerleg_X_fr_RF_upperleg) X(fr_RF_lowerleg_X_fr_trunk) X(fr_RF_upperleg_X_fr_RF_hipassembly) X(fr_RF_upperleg_X_fr_RF_lowerleg) X(fr_RF_upperleg_X_fr_trunk) X(fr_RH_foot_X_fr_RH_lowerleg) X(fr_RH_foot_X_fr_trunk) X(fr_RH_hipassembly_X_fr_RH_upperleg) X(fr_RH_hipassembly_X_fr_trunk) X(fr_RH_lowerleg_X_fr_RH_upperleg) X(fr_RH_lowerleg_X_fr_trunk) X(fr_RH_upperleg_X_fr_RH_hipassembly) X(fr_RH_upperleg_X_fr_RH_lowerleg) X(fr_RH_upperleg_X_fr_trunk) X(fr_trunk_X_LF_hipassemblyCOM) X(fr_trunk_X_LF_lowerlegCOM) X(fr_trunk_X_LF_upperlegCOM) X(fr_trunk_X_LH_hipassemblyCOM) X(fr_trunk_X_LH_lowerlegCOM) X(fr_trunk_X_LH_upperlegCOM) X(fr_trunk_X_RF_hipassemblyCOM) X(fr_trunk_X_RF_lowerlegCOM) X(fr_trunk_X_RF_upperlegCOM) X(fr_trunk_X_RH_hipassemblyCOM) X(fr_trunk_X_RH_lowerlegCOM) X(fr_trunk_X_RH_upperlegCOM) X(fr_trunk_X_fr_LF_HAA) X(fr_trunk_X_fr_LF_HFE) X(fr_trunk_X_fr_LF_KFE) X(fr_trunk_X_fr_LF_foot) X(fr_trunk_X_fr_LF_hipassembly) X(fr_trunk_X_fr_LF_lowerleg) X(fr_trunk_X_fr_LF_upperleg) X(fr_trunk_X_fr_LH_HAA) X(fr_trunk_X_fr_LH_HFE) X(fr_trunk_X_fr_LH_KFE) X(fr_trunk_X_fr_LH_foot) X(fr_trunk_X_fr_LH_hipassembly) X(fr_trunk_X_fr_LH_lowerleg) X(fr_trunk_X_fr_LH_upperleg) X(fr_trunk_X_fr_RF_HAA) X(fr_trunk_X_fr_RF_HFE) X(fr_trunk_X_fr_RF_KFE) X(fr_trunk_X_fr_RF_foot) X(fr_trunk_X_fr_RF_hipassembly) X(fr_trunk_X_fr_RF_lowerleg) X(fr_trunk_X_fr_RF_upperleg) X(fr_trunk_X_fr_RH_HAA) X(fr_trunk_X_fr_RH_HFE) X(fr_trunk_X_fr_RH_KFE) X(fr_trunk_X_fr_RH_foot) X(fr_trunk_X_fr_RH_hipassembly) X(fr_trunk_X_fr_RH_lowerleg) X(fr_trunk_X_fr_RH_upperleg)
#define INV_HyQ(X) X(fr_LF_foot_X_fr_trunk,fr_trunk_X_fr_LF_foot) X(fr_LF_hipassembly_X_fr_LF_upperleg,fr_LF_upperleg_X_fr_LF_hipassembly) X(fr_LF_hipassembly_X_fr_trunk,fr_trunk_X_fr_LF_hipassembly) X(fr_LF_lowerleg_X_fr_LF_upperleg,fr_LF_upperleg_X_fr_LF_lowerleg) X(fr_LF_lowerleg_X_fr_trunk,fr_trunk_X_fr_LF_lowerleg) X(fr_LF_upperleg_X_fr_trunk,fr_trunk_X_fr_LF_upperleg) X(fr_LH_foot_X_fr_trunk,fr_trunk_X_fr_LH_foot) X(fr_LH_hipassembly_X_fr_LH_upperleg,fr_LH_upperleg_X_fr_LH_hipassembly) X(fr_LH_hipassembly_X_fr_trunk,fr_trunk_X_fr_LH_hipassembly) X(fr_LH_lowerleg_X_fr_LH_upperleg,fr_LH_upperleg_X_fr_LH_lowerleg) X(fr_LH_lowerleg_X_fr_trunk,fr_trunk_X_fr_LH_lowerleg) X(fr_LH_upperleg_X_fr_trunk,fr_trunk_X_fr_LH_upperleg) X(fr_RF_foot_X_fr_trunk,fr_trunk_X_fr_RF_foot) X(fr_RF_hipassembly_X_fr_RF_upperleg,fr_RF_upperleg_X_fr_RF_hipassembly) X(fr_RF_hipassembly_X_fr_trunk,fr_trunk_X_fr_RF_hipassembly) X(fr_RF_lowerleg_X_fr_RF_upperleg,fr_RF_upperleg_X_fr_RF_lowerleg) X(fr_RF_lowerleg_X_fr_trunk,fr_trunk_X_fr_RF_lowerleg) X(fr_RF_upperleg_X_fr_trunk,fr_trunk_X_fr_RF_upperleg) X(fr_RH_foot_X_fr_trunk,fr_trunk_X_fr_RH_foot) X(fr_RH_hipassembly_X_fr_RH_upperleg,fr_RH_upperleg_X_fr_RH_hipassembly) X(fr_RH_hipassembly_X_fr_trunk,fr_trunk_X_fr_RH_hipassembly) X(fr_RH_lowerleg_X_fr_RH_upperleg,fr_RH_upperleg_X_fr_RH_lowerleg) X(fr_RH_lowerleg_X_fr_trunk,fr_trunk_X_fr_RH_lowerleg) X(fr_RH_upperleg_X_fr_trunk,fr_trunk_X_fr_RH_upperleg)
#define TRI_HyQ(X) X(fr_LF_foot_X_fr_LF_lowerleg,fr_LF_foot_X_fr_trunk,fr_trunk_X_fr_LF_lowerleg) X(fr_LF_foot_X_fr_trunk,fr_LF_foot_X_fr_LF_lowerleg,fr_LF_lowerleg_X_fr_trunk) X(fr_LF_hipassembly_X_fr_LF_upperleg,fr_LF_hipassembly_X_fr_trunk,fr_trunk_X_fr_LF_upperleg) X(fr_LF_hipassembly_X_fr_trunk,fr_LF_hipassembly_X_fr_LF_upperleg,fr_LF_upperleg_X_fr_trunk) X(fr_LF_lowerleg_X_fr_LF_upperleg,fr_LF_lowerleg_X_fr_trunk,fr_trunk_X_fr_LF_upperleg) X(fr_LF_lowerleg_X_fr_trunk,fr_LF_lowerleg_X_fr_LF_upperleg,fr_LF_upperleg_X_fr_trunk) X(fr_LF_upperleg_X_fr_LF_hipassembly,fr_LF_upperleg_X_fr_trunk,fr_trunk_X_fr_LF_hipassembly) X(fr_LF_upperleg_X_fr_LF_lowerleg,fr_LF_upperleg_X_fr_trunk,fr_trunk_X_fr_LF_lowerleg) X(fr_LF_upperleg_X_fr_trunk,fr_LF_upperleg_X_fr_LF_hipassembly,fr_LF_hipassembly_X_fr_trunk) X(fr_LF_upperleg_X_fr_trunk,fr_LF_upperleg_X_fr_LF_lowerleg,fr_LF_lowerleg_X_fr_trunk) X(fr_LH_foot_X_fr_LH_lowerleg,fr_LH_foot_X_fr_trunk,fr_trunk_X_fr_LH_lowerleg) X(fr_LH_foot_X_fr_trunk,fr_LH_foot_X_fr_LH_lowerleg,fr_LH_lowerleg_X_fr_trunk) X(fr_LH_hipassembly_X_fr_LH_upperleg,fr_LH_hipassembly_X_fr_trunk,fr_trunk_X_fr_LH_upperleg) X(fr_LH_hipassembly_X_fr_trunk,fr_LH_hipassembly_X_fr_LH_upperleg,fr_LH_upperleg_X_fr_trunk) X(fr_LH_lowerleg_X_fr_LH_upperleg,fr_LH_lowerleg_X_fr_trunk,fr_trunk_X_fr_LH_upperleg) X(fr_LH_lowerleg_X_fr_trunk,fr_LH_lowerleg_X_fr_LH_upperleg,fr_LH_upperleg_X_fr_trunk) X(fr_LH_upperleg_X_fr_LH_hipassembly,fr_LH_upperleg_X_fr_trunk,fr_trunk_X_fr_LH_hipassembly) X(fr_LH_upperleg_X_fr_LH_lowerleg,fr_LH_upperleg_X_fr_trunk,fr_trunk_X_fr_LH_lowerleg) X(fr_LH_upperleg_X_fr_trunk,fr_LH_upperleg_X_fr_LH_hipassembly,fr_LH_hipassembly_X_fr_trunk) X(fr_LH_upperleg_X_fr_trunk,fr_LH_upperleg_X_fr_LH_lowerleg,fr_LH_lowerleg_X_fr_trunk) X(fr_RF_foot_X_fr_RF_lowerleg,fr_RF_foot_X_fr_trunk,fr_trunk_X_fr_RF_lowerleg) X(fr_RF_foot_X_fr_trunk,fr_RF_foot_X_fr_RF_lowerleg,fr_RF_lowerleg_X_fr_trunk) X(fr_RF_hipassembly_X_fr_RF_upperleg,fr_RF_hipassembly_X_fr_trunk,fr_trunk_X_fr_RF_upperleg) X(fr_RF_hipassembly_X_fr_trunk,fr_RF_hipassembly_X_fr_RF_upperleg,fr_RF_upperleg_X_fr_trunk) X(fr_RF_lowerleg_X_fr_RF_upperleg,fr_RF_lowerleg_X_fr_trunk,fr_trunk_X_fr_RF_upperleg) X(fr_RF_lowerleg_X_fr_trunk,fr_RF_lowerleg_X_fr_RF_upperleg,fr_RF_upperleg_X_fr_trunk) X(fr_RF_upperleg_X_fr_RF_hipassembly,fr_RF_upperleg_X_fr_trunk,fr_trunk_X_fr_RF_hipassembly) X(fr_RF_upperleg_X_fr_RF_lowerleg,fr_RF_upperleg_X_fr_trunk,fr_trunk_X_fr_RF_lowerleg) X(fr_RF_upperleg_X_fr_trunk,fr_RF_upperleg_X_fr_RF_hipassembly,fr_RF_hipassembly_X_fr_trunk) X(fr_RF_upperleg_X_fr_trunk,fr_RF_upperleg_X_fr_RF_lowerleg,fr_RF_lowerleg_X_fr_trunk) X(fr_RH_foot_X_fr_RH_lowerleg,fr_RH_foot_X_fr_trunk,fr_trunk_X_fr_RH_lowerleg) X(fr_RH_foot_X_fr_trunk,fr_RH_foot_X_fr_RH_lowerleg,fr_RH_lowerleg_X_fr_trunk) X(fr_RH_hipassembly_X_fr_RH_upperleg,fr_RH_hipassembly_X_fr_trunk,fr_trunk_X_fr_RH_upperleg) X(fr_RH_hipassembly_X_fr_trunk,fr_RH_hipassembly_X_fr_RH_upperleg,fr_RH_upperleg_X_fr_trunk) X(fr_RH_lowerleg_X_fr_RH_upperleg,fr_RH_lowerleg_X_fr_trunk,fr_trunk_X_fr_RH_upperleg) X(fr_RH_lowerleg_X_fr_trunk,fr_RH_lowerleg_X_fr_RH_upperleg,fr_RH_upperleg_X_fr_trunk) X(fr_RH_upperleg_X_fr_RH_hipassembly,fr_RH_upperleg_X_fr_trunk,fr_trunk_X_fr_RH_hipassembly) X(fr_RH_upperleg_X_fr_RH_lowerleg,fr_RH_upperleg_X_fr_trunk,fr_trunk_X_fr_RH_lowerleg) X(fr_RH_upperleg_X_fr_trunk,fr_RH_upperleg_X_fr_RH_hipassembly,fr_RH_hipassembly_X_fr_trunk) X(fr_RH_upperleg_X_fr_trunk,fr_RH_upperleg_X_fr_RH_lowerleg,fr_RH_lowerleg_X_fr_trunk) X(fr_trunk_X_fr_LF_hipassembly,fr_trunk_X_fr_LF_upperleg,fr_LF_upperleg_X_fr_LF_hipassembly) X(fr_trunk_X_fr_LF_lowerleg,fr_trunk_X_fr_LF_foot,fr_LF_foot_X_fr_LF_lowerleg) X(fr_trunk_X_fr_LF_lowerleg,fr_trunk_X_fr_LF_upperleg,fr_LF_upperleg_X_fr_LF_lowerleg) X(fr_trunk_X_fr_LF_upperleg,fr_trunk_X_fr_LF_hipassembly,fr_LF_hipassembly_X_fr_LF_upperleg) X(fr_trunk_X_fr_LF_upperleg,fr_trunk_X_fr_LF_lowerleg,fr_LF_lowerleg_X_fr_LF_upperleg) X(fr_trunk_X_fr_LH_hipassembly,fr_trunk_X_fr_LH_upperleg,fr_LH_upperleg_X_fr_LH_hipassembly) X(fr_trunk_X_fr_LH_lowerleg,fr_trunk_X_fr_LH_foot,fr_LH_foot_X_fr_LH_lowerleg) X(fr_trunk_X_fr_LH_lowerleg,fr_trunk_X_fr_LH_upperleg,fr_LH_upperleg_X_fr_LH_lowerleg) X(fr_trunk_X_fr_LH_upperleg,fr_trunk_X_fr_LH_hipassembly,fr_LH_hipassembly_X_fr_LH_upperleg) X(fr_trunk_X_fr_LH_upperleg,fr_trunk_X_fr_LH_lowerleg,fr_LH_lowerleg_X_fr_LH_upperleg) X(fr_trunk_X_fr_RF_hipassembly,fr_trunk_X_fr_RF_upperleg,fr_RF_upperleg_X_fr_RF_hipassembly) X(fr_trunk_X_fr_RF_lowerleg,fr_trunk_X_fr_RF_foot,fr_RF_foot_X_fr_RF_lowerleg) X(fr_trunk_X_fr_RF_lowerleg,fr_trunk_X_fr_RF_upperleg,fr_RF_upperleg_X_fr_RF_lowerleg) X(fr_trunk_X_fr_RF_upperleg,fr_trunk_X_fr_RF_hipassembly,fr_RF_hipassembly_X_fr_RF_upperleg) X(fr_trunk_X_fr_RF_upperleg,fr_trunk_X_fr_RF_lowerleg,fr_RF_lowerleg_X_fr_RF_upperleg) X(fr_trunk_X_fr_RH_hipassembly,fr_trunk_X_fr_RH_upperleg,fr_RH_upperleg_X_fr_RH_hipassembly) X(fr_trunk_X_fr_RH_lowerleg,fr_trunk_X_fr_RH_foot,fr_RH_foot_X_fr_RH_lowerleg) X(fr_trunk_X_fr_RH_lowerleg,fr_trunk_X_fr_RH_upperleg,fr_RH_upperleg_X_fr_RH_lowerleg) X(fr_trunk_X_fr_RH_upperleg,fr_trunk_X_fr_RH_hipassembly,fr_RH_hipassembly_X_fr_RH_upperleg) X(fr_trunk_X_fr_RH_upperleg,fr_trunk_X_fr_RH_lowerleg,fr_RH_lowerleg_X_fr_RH_upperleg)
#define JAC_HyQ(X) X(fr_trunk_J_LF_hipassemblyCOM,fr_trunk_X_LF_hipassemblyCOM,0,1) X(fr_trunk_J_RF_hipassemblyCOM,fr_trunk_X_RF_hipassemblyCOM,3,1) X(fr_trunk_J_LH_hipassemblyCOM,fr_trunk_X_LH_hipassemblyCOM,6,1) X(fr_trunk_J_RH_hipassemblyCOM,fr_trunk_X_RH_hipassemblyCOM,9,1) X(fr_trunk_J_LF_upperlegCOM,fr_trunk_X_LF_upperlegCOM,0,2) X(fr_trunk_J_RF_upperlegCOM,fr_trunk_X_RF_upperlegCOM,3,2) X(fr_trunk_J_LH_upperlegCOM,fr_trunk_X_LH_upperlegCOM,6,2) X(fr_trunk_J_RH_upperlegCOM,fr_trunk_X_RH_upperlegCOM,9,2) X(fr_trunk_J_LF_lowerlegCOM,fr_trunk_X_LF_lowerlegCOM,0,3) X(fr_trunk_J_RF_lowerlegCOM,fr_trunk_X_RF_lowerlegCOM,3,3) X(fr_trunk_J_LH_lowerlegCOM,fr_trunk_X_LH_lowerlegCOM,6,3) X(fr_trunk_J_RH_lowerlegCOM,fr_trunk_X_RH_lowerlegCOM,9,3) X(fr_trunk_J_fr_LF_foot,fr_trunk_X_fr_LF_foot,0,3) X(fr_trunk_J_fr_RF_foot,fr_trunk_X_fr_RF_foot,3,3) X(fr_trunk_J_fr_LH_foot,fr_trunk_X_fr_LH_foot,6,3) X(fr_trunk_J_fr_RH_foot,fr_trunk_X_fr_RH_foot,9,3)
#define TR_InvertedPendulum(X) X(fr_InvertedPendulumBase_X_fr_Joint1) X(fr_InvertedPendulumBase_X_fr_Link1) X(fr_InvertedPendulumBase_X_fr_ee) X(fr_Link1_X_fr_InvertedPendulumBase) X(fr_ee_X_fr_InvertedPendulumBase)
#define INV_InvertedPendulum(X) X(fr_InvertedPendulumBase_X_fr_Link1,fr_Link1_X_fr_InvertedPendulumBase) X(fr_InvertedPendulumBase_X_fr_ee,fr_ee_X_fr_InvertedPendulumBase)
#define TRI_InvertedPendulum(X) 
#define JAC_InvertedPendulum(X) X(fr_InvertedPendulumBase_J_fr_Link1,fr_InvertedPendulumBase_X_fr_Link1,0,1) X(fr_InvertedPendulumBase_J_fr_ee,fr_InvertedPendulumBase_X_fr_ee,0,1)
#define TR_DoubleInvertedPendulum(X) X(fr_DoubleInvertedPendulumBase_X_fr_Joint1) X(fr_DoubleInvertedPendulumBase_X_fr_Joint2) X(fr_DoubleInvertedPendulumBase_X_fr_Link1) X(fr_DoubleInvertedPendulumBase_X_fr_Link2) X(fr_DoubleInvertedPendulumBase_X_fr_ee) X(fr_Link1_X_fr_DoubleInvertedPendulumBase) X(fr_Link1_X_fr_Link2) X(fr_Link2_X_fr_DoubleInvertedPendulumBase) X(fr_Link2_X_fr_Link1) X(fr_ee_X_fr_DoubleInvertedPendulumBase)
#define INV_DoubleInvertedPendulum(X) X(fr_DoubleInvertedPendulumBase_X_fr_Link1,fr_Link1_X_fr_DoubleInvertedPendulumBase) X(fr_DoubleInvertedPendulumBase_X_fr_Link2,fr_Link2_X_fr_DoubleInvertedPendulumBase) X(fr_DoubleInvertedPendulumBase_X_fr_ee,fr_ee_X_fr_DoubleInvertedPendulumBase) X(fr_Link1_X_fr_Link2,fr_Link2_X_fr_Link1)
#define TRI_DoubleInvertedPendulum(X) X(fr_DoubleInvertedPendulumBase_X_fr_Link1,fr_DoubleInvertedPendulumBase_X_fr_Link2,fr_Link2_X_fr_Link1) X(fr_DoubleInvertedPendulumBase_X_fr_Link2,fr_DoubleInvertedPendulumBase_X_fr_Link1,fr_Link1_X_fr_Link2) X(fr_Link1_X_fr_DoubleInvertedPendulumBase,fr_Link1_X_fr_Link2,fr_Link2_X_fr_DoubleInvertedPendulumBase) X(fr_Link1_X_fr_Link2,fr_Link1_X_fr_DoubleInvertedPendulumBase,fr_DoubleInvertedPendulumBase_X_fr_Link2) X(fr_Link2_X_fr_DoubleInvertedPendulumBase,fr_Link2_X_fr_Link1,fr_Link1_X_fr_DoubleInvertedPendulumBase) X(fr_Link2_X_fr_Link1,fr_Link2_X_fr_DoubleInvertedPendulumBase,fr_DoubleInvertedPendulumBase_X_fr_Link1)
#define JAC_DoubleInvertedPendulum(X) X(fr_DoubleInvertedPendulumBase_J_fr_Link2,fr_DoubleInvertedPendulumBase_X_fr_Link2,0,2) X(fr_DoubleInvertedPendulumBase_J_fr_Link1,fr_DoubleInvertedPendulumBase_X_fr_Link1,0,1) X(fr_DoubleInvertedPendulumBase_J_fr_ee,fr_DoubleInvertedPendulumBase_X_fr_ee,0,2)
#define TR_QuadrotorWithLoad(X) X(fr_body_X_fr_com0) X(fr_body_X_fr_com1) X(fr_body_X_fr_ee) X(fr_body_X_fr_jA) X(fr_body_X_fr_jB) X(fr_body_X_fr_link1) X(fr_body_X_fr_link2) X(fr_com0_X_fr_body) X(fr_com1_X_fr_body) X(fr_ee_X_fr_body) X(fr_link1_X_fr_body) X(fr_link1_X_fr_link2) X(fr_link2_X_fr_body) X(fr_link2_X_fr_link1)
#define INV_QuadrotorWithLoad(X) X(fr_body_X_fr_com0,fr_com0_X_fr_body) X(fr_body_X_fr_com1,fr_com1_X_fr_body) X(fr_body_X_fr_ee,fr_ee_X_fr_body) X(fr_body_X_fr_link1,fr_link1_X_fr_body) X(fr_body_X_fr_link2,fr_link2_X_fr_body) X(fr_link1_X_fr_link2,fr_link2_X_fr_link1)
#define TRI_QuadrotorWithLoad(X) X(fr_body_X_fr_link1,fr_body_X_fr_link2,fr_link2_X_fr_link1) X(fr_body_X_fr_link2,fr_body_X_fr_link1,fr_link1_X_fr_link2) X(fr_link1_X_fr_body,fr_link1_X_fr_link2,fr_link2_X_fr_body) X(fr_link1_X_fr_link2,fr_link1_X_fr_body,fr_body_X_fr_link2) X(fr_link2_X_fr_body,fr_link2_X_fr_link1,fr_link1_X_fr_body) X(fr_link2_X_fr_link1,fr_link2_X_fr_body,fr_body_X_fr_link1)
#define JAC_QuadrotorWithLoad(X) X(fr_body_J_fr_ee,fr_body_X_fr_ee,0,2)
