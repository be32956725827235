"""Which harness entries decide which property, and within what bounds."""
def E(fn, about="", **kw):
    return dict(fn=fn, about=about, **kw)

CHECKS = {
    "B01": dict(harness="bigendian.cpp", entries=[
        E("be_integers", "every multi-byte reader, all byte values, offsets 0..8"),
        E("cds_short", "short CDS, all 2^48 encodings"), E("cds_strings", "printed times"), E("cds_timestruct"), E("cuc_time"), E("generalized_time")],
        bounds={"quick": "all byte values"}),
    "H01": dict(harness="header.cpp", entries=[
        E("header_each", "one record of each kind"), E("header_pairs", "two different records in either order", reach=["pair decoded"]), E("header_full", "all nine records in four orders", reach=["full header decoded"]), E("header_long", reach=["text", "lines"]), E("header_again", "two files read one after the other")],
        bounds={"quick": "all field values; text records to 10 octets, line quality to 3 lines, every ordered pair of records, 4 orders of all nine; texts of 8 lengths up to 65532 octets and line qualities of 7 counts up to 5040", "thorough": "text records to 41 octets, line quality to 8 lines"}),
}
CHECKS["H02"] = dict(harness="header_bad.cpp", entries=[
    E("bad_primary", reach=["accepted"]), E("bad_records", reach=["refused"]), E("bad_lengths"), E("bad_overlap"), E("bad_quality"), E("bad_projection")],
    bounds={"quick": "record area to 8 arbitrary octets; headers to 86 octets for single records; line counts 0..5 and 65530..65535", "thorough": "record area to 13 arbitrary octets"})
CHECKS["H03"] = dict(harness="prologue.cpp", entries=[
    E("rec_status"), E("rec_acquisition"), E("rec_celestial"), E("rec_description"), E("rec_radiometric"), E("rec_geometric"), E("rec_impf"),
    E("rec_prodstats"), E("rec_navig"), E("rec_radqlty"), E("rec_geoqlty"), E("rec_timelin"),
    E("file_prologue", reach=["prologue decoded"]), E("file_epilogue", reach=["epilogue decoded"])],
    bounds={"quick": "all octet values; every record on its own and the complete prologue and epilogue; presence octets of polynomials and IMPF records both ways"},
    outside="the printed dumps of the records")
CHECKS["H04"] = dict(harness="datafield.cpp", entries=[
    E("image_plain"), E("image_compressed"), E("message_text"), E("message_gts"), E("message_binary"), E("message_keys"), E("long_payloads", reach=["long"]), E("foreign_prologue", reach=["foreign prologue decoded"]),
    E("truncated", reach=["refused"]), E("unknown_type"), E("missing_records"), E("short_seviri", reach=["prologue", "epilogue"]), E("other_products")],
    bounds={"quick": "image and message payloads to 12 octets, 2 keys, foreign prologues to 60 octets, payloads of 8 sizes up to 140000 octets, declared lengths below 3000 octets", "thorough": "image payloads to 40 octets, messages to 30, 5 keys, foreign prologues to 70 octets"},
    outside="the EUMETSAT decompression library, which is not installed here and is replaced by a stand-in that records its request")
CHECKS["H05"] = dict(harness="calib.cpp", entries=[
    E("table_visible"), E("table_infrared"), E("table_hrv"), E("table_full"), E("reflectance", reach=["reflectance"]), E("scan_angle")],
    bounds={"quick": "tables of up to 3 bits per sample with arbitrary finite slopes and offsets, and a 10 bit table with fixed ones at an arbitrary count; any radiance below 1000, any position and time from 1970 to 2100", "thorough": "tables of up to 6 bits"})
CHECKS["F01"] = dict(harness="facts.cpp", entries=[
    E("ids_from_hrit"), E("ids_to_hrit"), E("spacecraft_names"), E("spacecraft_name_parse"), E("channels", reach=["channel"]), E("channel_from_wavelength"), E("wavelength_refused"), E("channel_digits"), E("hrit_names"), E("hrit_quality"), E("hrit_channels")],
    bounds={"quick": "any 32 bit identifier (channel descriptions: satellites -1 to 1100, channels -1 to 200), any wavelength below 20 um (near the channels in steps of 0.001), spacecraft names of 3 to 6 arbitrary octets"})
CHECKS["F02"] = dict(harness="facts.cpp", entries=[
    E("pixel_from_factor"), E("factor_from_pixel"), E("known_resolutions"), E("seviri_extent"), E("seviri_extent_pixels"), E("seviri_pixels_extent")],
    bounds={"quick": "any scaling factor of magnitude 0.001 to 30000, any pixel size to 1000 km, any extent of 1 to 60000 pixels"})
CHECKS["F03"] = dict(harness="facts.cpp", entries=[E("julian_day"), E("sun_angle"), E("satellite_angle")],
    bounds={"quick": "any calendar date of years 1 to 9999 (1970 to 2100 for the sun), any hour, any position"})
CHECKS["X02"] = dict(harness="fileaccess.cpp", entries=[
    E("long_names", reach=["parsed"]), E("short_names", reach=["parsed"]), E("any_name", reach=["parsed"]), E("odd_segment_names", reach=["odd name parsed"]), E("other_channel"),
    E("find_prologue", reach=["found"]), E("find_epilogue", reach=["found"]), E("find_segment", reach=["found"]), E("find_many", reach=["several"]), E("find_full", reach=["full"])],
    bounds={"quick": "fields of any characters within their HRIT widths, names of up to 5 arbitrary octets, directories of up to 3 files with arbitrary names, and of 294 files of three channels under paths of 2 and 289 characters", "thorough": "names of up to 7 arbitrary octets"},
    outside="directories whose own name contains glob wildcards; the file system, replaced by an in-memory listing behind glob()")
CHECKS["X01"] = dict(harness="dataaccess.cpp", entries=[
    E("scan_segments", reach=["scanned", "no segments"]), E("scan_hrv", reach=["hrv"]), E("scan_refused", reach=["refused"]), E("line_start", reach=["lower", "upper"]), E("line_start_rss"),
    E("lines_normal", reach=["complete"]), E("lines_small"), E("lines_outside"), E("lines_hrv"), E("scale_normal", reach=["read"]), E("scale_hrv", reach=["read"]), E("read_sequences", reach=["sequence"]), E("read_faults", reach=["reported"]), E("uncompressed_size")],
    bounds={"quick": "products of up to 3 present segments of 4 in any order with arbitrary dimensions and factors; any HRV coverage up to 11136; full 3712 line images at 32 lines, segments of 1 to 5 lines at every line; full width lines of 8 segments, HRV of 24 segments with 464 lines or 5568 columns; all sequences of 4 reads over 4 segments", "thorough": "segments of 1 to 9 lines; all sequences of 5 reads"},
    outside="the EUMETSAT decompression library (replaced by a stand-in); the octet order of uncompressed segments")
GDALM = dict(models=["rt.cpp", "rtc.c", "gdal.cpp"], libs=["-lgdal"])
CHECKS["X03"] = dict(harness="xritdrv.cpp", entries=[
    E("open_normal", reach=["opened"]), E("open_time"), E("open_hrv", reach=["opened"]), E("read_counts"), E("read_temperatures"), E("read_hrv", reach=["inside", "outside"]), E("read_full", reach=["full"]), E("read_widths", reach=["table"]),
    E("open_names"), E("open_broken", reach=["refused"]), E("read_broken", reach=["failed"]), E("suffixes", reach=["r39"]), E("options"), E("registered")],
    bounds={"quick": "one segment products of every channel and of the 4 MSG spacecraft; every calibration slope in [0.0001, 10], offset in [-100, 100] and grid step in (-100, 100); every millisecond of 7 image times; all names of up to 6 printable characters; full width products of 8 segments read in turn; counts to 11137 of tables of 6 to 16 bits; 11 kinds of unusable product, 3 kinds of damaged segment; every channel suffix and MSAT_COMPUTE value against 4 channels", "thorough": "42 image times, names of up to 7 characters"},
    outside="GDAL itself and PROJ (replaced by models of the calls the driver makes); resampling reads; the EUMETSAT decompression library", **GDALM)
CHECKS["R01"] = dict(harness="reflect.cpp", entries=[E("visible", reach=["reflectance"]), E("wide", reach=["wide"]), E("tiled", reach=["tiles"]), E("ir39", reach=["reflectance"]), E("sun_angle"), E("satellite_angle"), E("day"), E("off_earth"), E("consistency"), E("channels"), E("unusable"), E("read_fails")],
    bounds={"quick": "blocks of up to 4x4 pixels at 3 positions; every 10 bit count of 4 calibrations of every visible channel at 4 image times; the 3.9 um reflectance at 5 temperature triples (5 steps each) and 3 positions; every geotransform coefficient in steps for the angles; images of 700x3, 5x600 and 130x2 pixels read in turn; 6 kinds of disagreeing source, every channel identifier 0 to 16, 10 kinds of unusable source set", "thorough": "all combinations of channel, calibration and time; 41 steps of the 3.9 um temperature"},
    outside="PROJ (replaced by a linear projection); images whose last block is not full", **GDALM)
CHECKS["I01"] = dict(harness="hri.cpp", entries=[E("numerals"), E("float4", reach=["zero", "large", "small", "value"]), E("float8", reach=["value"]), E("integers"), E("label"), E("format_codes", reach=["code", "unknown"]), E("satellites", reach=["known", "unknown"]), E("dates"), E("table_calibration"), E("table_flags"), E("table_integers"), E("table_reals"), E("keyslots", reach=["none", "found"])],
    bounds={"quick": "all octets of numerals (two symbolic digits at each position), 4 octet floats, integers, label, satellite, flags, tables of integers, key slots; 8 octet floats with 13 positions of the leading bit; dates 1977-2010 around February and all days of 1996 and 2003; calibration and real tables with one value varied at a time", "thorough": "all positions of the leading bit of 8 octet floats"},
    outside="the printed form of the header")
CHECKS["I02"] = dict(harness="hri.cpp", entries=[E("image_bounds", reach=["accepted", "refused"]), E("image_sizes", reach=["image"]), E("calibration", reach=["table"]), E("calibration_fixed"), E("files_b", reach=["file"]), E("files_x", reach=["file"]), E("files_a", reach=["file"]), E("files_short", reach=["file"]), E("files_bad", reach=["refused"]), E("files_cut")],
    bounds={"quick": "complete files of all 12 formats, plain and Tecnavia, all samples of one line (first, middle or last), other lines filled with a value of their own; short plain files of 0 to 2 lines; put and get at all positions; coefficients of 0.001 to 1 with 4 space counts", "thorough": "also short files of A formats"},
    outside="partially wrong synchronisation words; the printed form of the header")
CHECKS["O01"] = dict(harness="omtpids.cpp", entries=[E("numbers"), E("file_header", reach=["header", "short"]), E("set_header"), E("scan_line", reach=["line", "refused"]), E("large_file", reach=["large"]), E("whole_file", reach=["file"])],
    bounds={"quick": "every octet of a file header of 5 lengths, of a scan line of up to 5 pixels, and of files of up to 3 records of up to 3 lines of up to 3 pixels (lines per record 2, 3, 1; every range of lines); files of 300 lines and of lines of 5000 pixels", "thorough": "3 lines in every record"},
    outside="the iostreams of the C++ library (interpreted from their templates, over an in-memory file)")
CHECKS["O02"] = dict(harness="omtpids.cpp", entries=[E("damaged", reach=["refused"]), E("contradictory", reach=["refused"]), E("empty_object")],
    bounds={"quick": "a file of 2 records cut at every boundary and up to 3 octets before it, with any number of records announced, a header, record or line length that does not fit: every shorter line length and header length, 10 longer ones, pixel counts up to 30 above, 3 line counts above", "thorough": "the same"})
CHECKS["G01"] = dict(harness="gribdrv.cpp", entries=[E("values", reach=["nothing", "missing", "value"]), E("channels", reach=["read"]), E("times", reach=["read"]), E("place", reach=["read"]), E("shapes", reach=["read"]), E("sparse", reach=["sparse"], time={"quick": 90, "thorough": 300}), E("any_wave_number", reach=["refused", "known", "other"]), E("any_level", reach=["known"]), E("any_grid", reach=["read"]), E("local_keys"), E("recognised"), E("others", reach=["left"]), E("traced"), E("registered")],
    bounds={"quick": "2x2 images with two arbitrary 16 bit values, 4 scales and 2 missing values; every template, spacecraft and channel; 10 times; 7 shapes up to 300x7; every pixel offset of full disk and HRV images along each axis and every longitude; 5 shapes; foreign messages with 12 satellites x 21 wave numbers x 6 scale factors, 9x15 satellites and levels, any sub-satellite point and origin; headers of 0 to 20 octets before the message, any other file of up to 7 octets", "thorough": "any other file of up to 12 octets"},
    outside="ecCodes itself (replaced by a set of keys with the names, aliases and templates of ecCodes 2.34): packing precision, rounding of angles, the octets of the message; PROJ", **GDALM)
CHECKS["G02"] = dict(harness="gribdrv.cpp", entries=[E("bad_times"), E("without_metadata"), E("unsupported", reach=["refused"]), E("write_fails", reach=["failed"]), E("copy_faults", reach=["past", "harmless", "failed"]), E("read_faults", reach=["failed"]), E("missing_keys", reach=["past", "checked"]), E("edition"), E("wrong_amount")],
    bounds={"quick": "every call to ecCodes made by the driver failing in two ways, for the three templates; 12 kinds of unusable source, with any rotation term and pixel size; 4 kinds of failed write; every key of a foreign message missing; 0 to 8 values where 4 are due", "thorough": "the same"},
    outside="ecCodes itself (replaced by a set of keys); faults of the C library other than fopen, fwrite and fclose", **GDALM)
CHECKS["N01"] = dict(harness="native.cpp", entries=[E("packet_header"), E("line_header"), E("samples"), E("text_fields"), E("file_header", reach=["header"]), E("file_trailer", reach=["trailer"]), E("product", reach=["product"]), E("product_full", reach=["full"]), E("product_dump")],
    bounds={"quick": "lines of 0 to 17 octets; one record of the level 1.5 header or trailer symbolic at a time; text fields with a terminator at 4 places; products of 2 lines and 4 columns with 5 band selections, and of 3712 and 5568 columns or 300 lines", "thorough": "lines of 0 to 40 octets"},
    outside="the printed form of the header")
CHECKS["N02"] = dict(harness="native.cpp", entries=[E("packet_lengths", reach=["accepted", "refused"]), E("line_packet", reach=["line", "refused"]), E("product_sizes", reach=["product"]), E("product_broken", reach=["refused"]), E("product_bands"), E("no_file")],
    bounds={"quick": "all packet lengths, 5 truncations; line packets of 0 to 6 octets with wrong lengths and all truncations; products of 2 lines with 4 column and octet counts; 16 defects of the text header; 4 odd band selections", "thorough": "5 column and octet counts"},
    outside="files of full size")
CHECKS["U01"] = dict(harness="strings.cpp", entries=[E("base64"), E("base64_known"), E("base64_any"), E("long_texts", reach=["text"]), E("url"), E("url_any", reach=["decoded"]), E("cstring", time={"quick": 240, "thorough": 900}), E("cstring_any")],
    bounds={"quick": "all octet strings of up to 7 octets in base64, 2 in URL and C string encoding; texts of 8 lengths up to 1001 octets with one of 8 octets at 3 places; decoding of any 5 octets of base64, any 6 of the letters % 4 a Z, any 6 of \\ x 1 \" n", "thorough": "12 octets in base64, 3 in URL encoding, 2 in C string encoding with any rest; decoding of 6, 8 and 7 letters"},
    outside="longer texts (the code goes octet by octet, three at a time in base64)")
CHECKS["U02"] = dict(harness="strings.cpp", entries=[E("long_words", reach=["long"]), E("split", reach=["split"]), E("strips"), E("cases"), E("paths", reach=["path"]), E("append")],
    bounds={"quick": "texts of up to 7 letters and slashes with 3 separators; any octet strings of up to 4 (white space) or 2 (case) octets; paths of up to 6 letters, slashes and dots; pieces of up to 3; texts of up to 1200 words or 300 octets per word", "thorough": "texts of 10, octet strings of 5, paths of 8"},
    outside="longer texts; locales other than C; abspath (current directory)")
CHECKS["T02"] = dict(harness="geods.cpp", entries=[E("spaceview"), E("wkt"), E("decode"), E("invert"), E("singular", reach=["inverted", "refused"]), E("pixels"), E("nearest"), E("latlon"), E("latlon_released"), E("not_georeferenced", reach=["refused"]), E("no_coordinates"), E("proxy"), E("calibrated", reach=["calibrated"]), E("calibrated_mixed"), E("calibrated_large")],
    bounds={"quick": "sub-satellite longitudes: all doubles in ±180 for the projection, five for its text; centre columns and lines -200..10936 on six pixel sizes; pixels -100..11036 on seven grids (four of them axis-parallel, three rotated within 300x20 pixels), projected points on a 1/16 pixel lattice 20 pixels either side; singular matrices with entries -4..4; projected coordinates ±6e6 m for conversion to degrees; blocks of 2x2 with all 16 bit counts under four calibrations, blocks of up to 11136x464 for their size alone", "thorough": "as quick"},
    outside="the arithmetic of PROJ (a linear stand-in that can fail at each step is used); minimum and maximum under a negative scale; determinants smaller than 1e-15, which GDAL's own rule refuses", **GDALM)
CHECKS["T01"] = dict(harness="translate.cpp", entries=[E("unchanged"), E("window_any", reach=["refused", "whole", "window"]), E("window_moves"), E("kept"), E("rotated"), E("projected", reach=["refused", "window"]), E("projected_part", reach=["refused", "whole", "window"]), E("projected_any", reach=["refused"]), E("size_pixels"), E("size_percent"), E("size_bad", reach=["refused"]), E("bands", reach=["selected"]), E("no_bands"), E("expand", reach=["expanded"]), E("types"), E("scaling"), E("bounds"), E("reprojected"), E("source_points"), E("given_points"), E("again"), E("recode", reach=["copied"]), E("recode_bad", reach=["refused"])],
    bounds={"quick": "all 32 bit windows on a 3712x464 image; windows moved by 1..3700 pixels for the geotransform; projected windows at -10..50 pixels with four sizes, and corners on a 0.25 m lattice within 50 km, or not numbers, or beyond 1e11; output sizes in pixels and per cent listed in the harness; band lists of up to three of three bands with indices 0..4; expansion to 3 or 4 components of one band in three; 256 scalings in two sources; bounds ±1000; two control points; recode of images of 1..12 by 1..9 pixels with the cut and size options", "thorough": "all projected sizes 1..50, output sizes 1..12"},
    outside="what GDAL's virtual datasets and drivers then do with the request (a stand-in records it, checked against the calls GDAL declares); empty crop areas, which mean the whole image", **GDALM)
CHECKS["T04"] = dict(harness="gray.cpp", entries=[E("octets", reach=["gray"]), E("counts16", reach=["gray"], time={"quick": 200, "thorough": 600}), E("octets_any", reach=["gray", "constant", "missing"]), E("counts16_any", reach=["gray", "constant", "missing"]), E("floats", time={"quick": 120, "thorough": 600}), E("kelvin", reach=["gray"]), E("shapes", reach=["shape"]), E("stretched", reach=["gray", "wide"]), E("unreadable", reach=["refused"])],
    bounds={"quick": "8 and 16 bit bands of four pixels: any value between two of four chosen ones, values below 200 against any pair of them, eight missing values including none, out of range and not a number; two arbitrary 32 bit floats with missing 0, none and not a number; 7 shapes of bands up to 65792 pixels with the extremes at their corners; quarter degrees over 15 K with infinite and undefined pixels; nine stretch limits against all counts and integers within 1000", "thorough": "a third float from five values; quarter degrees over 100 K"},
    outside="what ImageMagick then writes (a stand-in records the gray octets); rounding of the gray level of floats by one", **GDALM)
CHECKS["T03"] = dict(harness="msat_tool.cpp", entries=[E("command_line", reach=["refused"]), E("whole"), E("cropped"), E("outside", reach=["refused"]), E("places", reach=["cropped", "refused"]), E("places_each"), E("nowhere", reach=["refused"]), E("bands", reach=["bands"]), E("bands_each"), E("bands_missing", reach=["refused"]), E("names", reach=["named"]), E("copied_metadata", reach=["copied", "refused"]), E("failures", reach=["reported"]), E("capped", reach=["capped"]), E("pictures_of_bands"), E("stretched"), E("calibrated"), E("view", reach=["shown"])],
    bounds={"quick": "the command lines listed in the harness, with up to three files, bands and options; places on grids shifted by -6..6 degrees at 1 to 4 pixels per degree; every printable spacecraft and channel name of two characters and six identifiers each; seven image sizes around the cap", "thorough": "all pairs of third bands"},
    outside="the C library's parsing of options (a stand-in with the same rules), opening and writing files (recorded), the text of error messages", **GDALM)
CHECKS["O03"] = dict(harness="omtptools.cpp", entries=[E("sector", reach=["sector"]), E("sector_whole", reach=["sector"], opts={"max-steps": 2000000000}, time={"quick": 100, "thorough": 300}), E("sector_rest", reach=["sector"], opts={"max-steps": 2000000000}), E("sector_outside", reach=["refused"]), E("pictures", reach=["drawn"]), E("uneven_picture"), E("copied"), E("listed"), E("unusable", reach=["refused"])],
    bounds={"quick": "sectors of images with 1, 2, 7, 73, 202 and 512 lines from the sector's first, of 802 and 803 pixels with symbolic ones at the edges of the sector; images which end before the sector, before or within its lines; pictures of up to 3 lines of 3 pixels over every choice of 3 visible, 2 infrared and 2 water vapour identifiers, 5 channels per line and 2 record layouts; copies with arbitrary pixels and line number; 0 to 3 records listed; files that are missing, cut in the header or in a line", "thorough": "40 lines as well"},
    outside="the wording of what is listed beyond the line headers' width, number and channel; write errors of the disk")
CHECKS["T05"] = dict(harness="pictures.cpp", entries=[E("xrit_picture", reach=["picture"]), E("xrit_options"), E("xrit_refused", reach=["refused"]), E("xrit_numbers", reach=["refused"]), E("xrit_here"), E("native_picture", reach=["picture"]), E("native_refused", reach=["refused"]), E("xrit_dump", reach=["dump"]), E("xrit_dump_sizes", reach=["dump"]), E("xrit_dump_whole", reach=["dump"], opts={"max-steps": 2000000000}), E("xrit_dump_refused", reach=["refused"])],
    bounds={"quick": "every subset of 3 segments of 3x2 arbitrary samples, packed or not; all combinations of options; 14 kinds of unusable files and command lines, any segment number beyond the announced ones, every data length below the needed; column, line and segment counts at 7 values up to 65535; native products of 2 bands and 2 scales; listings of every subset of segments over 5 distributions of samples, widths from 0 to 6000, a segment at 3 places and 2 orientations of the full disk", "thorough": "the same"},
    outside="Magick++ (replaced by a recorder), the wavelet decoder (replaced), getopt_long (replaced by one with the same rules), the position of HRV windows in xritdump's drawing")
CHECKS["M01"] = dict(harness="openmtp.cpp", entries=[E("numbers"), E("kinds", reach=["composite", "other"]), E("missing_lines"), E("calibration_texts"), E("calibration_numbers"), E("unrectified", reach=["rectified", "raw"]), E("unrectified_flags"), E("tables"), E("image", reach=["first", "second"]), E("calibration"), E("times"), E("time_texts"), E("formats", reach=["A", "B", "window"]), E("listing", reach=["raw", "rectified"], time={"quick": 240, "thorough": 600}, opts={"max-steps": 800000000})],
    bounds={"quick": 'the octets of every field of the first section, the 2636 octets of the second section and the scalars of the third arbitrary at once; one number at a time of each table of the third section (first, middle, last); any channel and processing code; missing line tables at 6 lines; coefficient and space count texts with one arbitrary digit, a blank and a 7 at any place, day and slot of any digits and blanks; images of up to 3 lines of 5 arbitrary pixels, alone or after another file; calibration of 256 counts for 4 coefficients, 7 channels, 2 satellites; dates 1977 to 2030 and times of day, as text for 48 of them; formats for 25 sizes and any first line; listings of rectified and raw images', "thorough": '12 lines of the missing line tables, 6 places in the tables, images of up to 5 lines of 8 pixels'},
    outside='OpenMTP_to_NetCDF (the NetCDF library is not installed); images of full size')
CHECKS["M02"] = dict(harness="openmtp.cpp", entries=[E("truncated", reach=["whole", "refused"]), E("sizes", reach=["read", "refused"]), E("recovers", reach=["read"]), E("not_known"), E("tool_refuses", reach=["refused"]), E("tool_version"), E("tool_lists", time={"quick": 240, "thorough": 600}, opts={"max-steps": 400000000})],
    bounds={"quick": 'files cut at each section, within the last section, in a line header and in a line by 0, 1, 2 or 33 octets; any number of lines and pixels outside 1..5000, and 64 pairs of odd ones; reading on after a failure; any unknown channel and satellite; 6 kinds of unusable argument of OpenMTP_info', "thorough": 'the same'},
    outside='read errors of the disk')
CHECKS["U03"] = dict(harness="db1.cpp", entries=[E("line", reach=["value"]), E("file", reach=["file"]), E("numbers", reach=["yes", "no", "other"]), E("integers"), E("nothing"), E("edits"), E("many"), E("written"), E("long_lines")],
    bounds={"quick": 'lines with 8 keys of 1 or 2 letters in both cases, 5 forms of up to 2 arbitrary value characters, 3 kinds of blanks, 4 line ends; files of 3 lines out of 5 kinds with 9 kinds of lines to pass over; numbers -9..99 and 4 large ones; any first letter of a yes or no; histories of 4 edits of 3 keys; 126 to 129 entries; lines of 900 to 2100 characters', "thorough": '3 letters and value characters, files of 4 lines, numbers to 999, 5 edits, up to 131 entries'},
    outside='values with quotes inside; write errors')
CHECKS["D01"] = dict(harness="db1.cpp", entries=[E("fields", reach=["read"]), E("channels", reach=["channel"]), E("again", reach=["read"]), E("incomplete", reach=["refused", "partly"]), E("db1_listing"), E("drawing", reach=["drawn"]), E("drawing_refused", reach=["refused"])],
    bounds={"quick": 'each of the 26 fields missing in turn; 12 channels at 3 places of the description with 6 variables; 12 arbitrary octets of samples; 4 ways of changing channel or directory; 9 kinds of missing or unusable files with 8 unusable bits per pixel; pictures with 3 scales, both directions and an overlay; 8 unusable requests', "thorough": 'the same'},
    outside='db1_to_netcdf (the NetCDF library is not installed); images of full size')
