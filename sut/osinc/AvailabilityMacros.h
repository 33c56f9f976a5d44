#pragma once
#define MAC_OS_X_VERSION_10_6 1060
#define MAC_OS_X_VERSION_MIN_REQUIRED SIM_OS_DARWIN
