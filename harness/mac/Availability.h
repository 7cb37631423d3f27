// Stand-in: OS X with Grand Central Dispatch
#define __MAC_10_6 1060
#define __MAC_OS_X_VERSION_MIN_REQUIRED 1060
