#define AcTan frz_AcTan
#define Angle frz_Angle
#define ArcCos frz_ArcCos
#define ArcSin frz_ArcSin
#define Calculate_LatLonAlt frz_Calculate_LatLonAlt
#define Calculate_Obs frz_Calculate_Obs
#define Calculate_RADec_and_Obs frz_Calculate_RADec_and_Obs
#define Calculate_Solar_Position frz_Calculate_Solar_Position
#define Calculate_User_PosVel frz_Calculate_User_PosVel
#define Calendar_Date frz_Calendar_Date
#define Checksum_Good frz_Checksum_Good
#define ClearFlag frz_ClearFlag
#define Convert_Sat_State frz_Convert_Sat_State
#define Convert_Satellite_Data frz_Convert_Satellite_Data
#define Cross frz_Cross
#define Cube frz_Cube
#define DOY frz_DOY
#define Date_Time frz_Date_Time
#define Deep frz_Deep
#define Degrees frz_Degrees
#define Delta_ET frz_Delta_ET
#define Dot frz_Dot
#define Epoch_Time frz_Epoch_Time
#define FMod2p frz_FMod2p
#define Frac frz_Frac
#define Fraction_of_Day frz_Fraction_of_Day
#define Get_Next_Tle_Set frz_Get_Next_Tle_Set
#define Good_Elements frz_Good_Elements
#define Int frz_Int
#define Julian_Date frz_Julian_Date
#define Julian_Date_of_Epoch frz_Julian_Date_of_Epoch
#define Julian_Date_of_Year frz_Julian_Date_of_Year
#define Magnitude frz_Magnitude
#define Modulus frz_Modulus
#define Normalize frz_Normalize
#define Radians frz_Radians
#define Round frz_Round
#define SDP4 frz_SDP4
#define SGP4 frz_SGP4
#define Sat_Eclipsed frz_Sat_Eclipsed
#define Scalar_Multiply frz_Scalar_Multiply
#define Scale_Vector frz_Scale_Vector
#define SetFlag frz_SetFlag
#define Sign frz_Sign
#define Sqr frz_Sqr
#define ThetaG frz_ThetaG
#define ThetaG_JD frz_ThetaG_JD
#define Time_of_Day frz_Time_of_Day
#define UTC_Calendar_Now frz_UTC_Calendar_Now
#define Vec_Add frz_Vec_Add
#define Vec_Sub frz_Vec_Sub
#define fast_atan2f frz_fast_atan2f
#define isFlagClear frz_isFlagClear
#define isFlagSet frz_isFlagSet
#define select_ephemeris frz_select_ephemeris
