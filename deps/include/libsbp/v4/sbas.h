#include <libsbp/vp_v4.h>
