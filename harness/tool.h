// The msat command with its files, its command line and the image library replaced; included by the harnesses of tools/.
#pragma once
#include "vrt.h"
#include <msat/facts.h>
#include <msat/gdal/gdaltranslate.h>
#include <cstdlib>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <getopt.h>
#include "Magick++.h"
