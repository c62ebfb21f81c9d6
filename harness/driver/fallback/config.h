/* Found only if the working tree has no config.h of its own. */
#ifndef PACKAGE
#define PACKAGE "thpronun"
#endif
#ifndef PACKAGE_NAME
#define PACKAGE_NAME "thpronun"
#endif
#ifndef PACKAGE_VERSION
#define PACKAGE_VERSION "9.9.9-test"
#endif
#ifndef VERSION
#define VERSION "9.9.9-test"
#endif
