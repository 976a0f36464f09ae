/* stands in for the generated configuration header */
#define VERSION "0.9.0"
#define PACKAGE "libmbus"
#define PACKAGE_VERSION VERSION
