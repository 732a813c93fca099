/* Emits the header-only (static inline) functions of the library so they can be verified.
   Contains no code of its own: only includes. Compiled with -femit-all-decls. */
#include <string.h>
#include <math.h>
#include "virg/nexus/nx_bit_ops.h"
#include "virg/nexus/nx_math.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_quaternion.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_colorspace.h"
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_pinhole.h"
#include "virg/nexus/nx_point_match_2d.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_statistics.h"
