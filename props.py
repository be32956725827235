"""Texts of the properties (properties.jsonl and MANIFEST.json are generated from here and checks.py by gen.py)."""
PROPS = {}


def P(id, title, statement, over, text, why, files, mechanism, observe=(), hook=None):
    PROPS[id] = dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                     why_tests_cant=" ".join(why.split()),
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook))


P("B01", "Big-endian fields and CCSDS/CUC/generalized times decode exactly",
  """Every integer and real of 1, 2, 4 or 8 octets read from an HRIT record is the big-endian (two's complement, IEEE-754) value of those octets, whatever the octets and whatever the alignment.
  Day-segmented times count whole days and milliseconds from 1958-01-01 UTC (with microseconds and nanoseconds where present) and give the matching Unix time, calendar fields and text; CUC times are the 4.3 octet fixed point number and generalized times are the printed calendar fields.""",
  ["inputs"], "all octet values of every field width; all 2^48 day-segmented encodings; printed text for every in-range millisecond and day; CUC values with up to two arbitrary octets",
  "No test decodes a field: the fileaccess tests only look at file names, the GDAL tests at two sample images.",
  ["msat/hrit/MSG_machine.cpp", "msat/hrit/MSG_time_cds.cpp"],
  [("byte swapping readers", "msat/hrit/MSG_machine.cpp:get_i1..get_r8"), ("time decoding", "msat/hrit/MSG_time_cds.cpp:read_from/get_timestring")],
  ["return values of the field readers", "Unix time, calendar fields and text of decoded times"])
P("H01", "HRIT header records decode from their documented positions",
  """A well formed xRIT file header decodes to exactly the values written in it: file type, header length, data field length and file size from the primary header; and for each secondary record (image structure, navigation, data function, annotation, timestamp, ancillary text, key, segment identification, segment line quality) every field from its documented octets.
  This holds whatever the field values, whichever records are present and in whichever order they come (line quality after image structure), and reading stops exactly where the header ends, whatever the data that follows.""",
  ["inputs", "configurations"], "all field values of every record kind; every single record, every ordered pair of records, four orders of all nine records",
  "The sample files all come from one disseminator with one record order and a handful of values per field; a wrong octet offset or a dependence on order is invisible on them.",
  ["msat/hrit/MSG_header.cpp", "msat/hrit/MSG_header_image_struct.cpp", "msat/hrit/MSG_header_image_navig.cpp", "msat/hrit/MSG_header_annotation.cpp", "msat/hrit/MSG_header_segment_id.cpp", "msat/hrit/MSG_header_segment_quality.cpp"],
  [("record dispatch", "msat/hrit/MSG_header.cpp:read_from"), ("record decoders", "msat/hrit/MSG_header_*.cpp constructors")],
  ["fields of the MSG_header object", "stream position after reading"])
P("H02", "Malformed or truncated HRIT headers are refused, never overrun",
  """Whatever octets are presented as an xRIT header, reading it either decodes it or fails with an exception: it never reads or writes outside its buffers, never terminates the process and never loops.
  A header is refused if it is incomplete, if its first record is not a 16 octet primary record, if its records do not tile the declared header length, if a record kind is unknown, if a record of fixed length (image structure, navigation, annotation, time stamp, segment identification) declares another length, or if a line quality record does not hold an entry for every line.""",
  ["inputs"], "every primary header with files of 1 to 22 octets; every content of up to 8 octets of secondary records (13 in the thorough check); every length field for each record kind in headers of 12 sizes; line counts against every quality record length to 42",
  "Tests only open intact files. A truncated or damaged download is the ordinary failure in reception, and memory errors on it depend on the exact octets.",
  ["msat/hrit/MSG_header.cpp", "msat/hrit/MSG_header_segment_quality.cpp", "msat/hrit/MSG_header_image_navig.cpp", "msat/hrit/MSG_header_ancillary_text.cpp"],
  [("header validation", "msat/hrit/MSG_header.cpp:read_from"), ("projection name parsing", "msat/hrit/MSG_header_image_navig.cpp")],
  ["exception or decoded header", "memory safety of the reader"])
P("H03", "SEVIRI prologue and epilogue fields decode from their documented octets",
  """Every numeric, flag and time field of the SEVIRI 1.5 prologue (satellite status with orbit and attitude polynomials, image acquisition, celestial events, image description, radiometric processing, geometric processing, IMPF configuration) and epilogue (image production statistics, navigation extraction results, radiometric quality, geometric quality, timeliness and completeness) holds exactly the value encoded at that field's documented octets, in the documented order, size, signedness and endianness, whatever the values.
  Reading the complete prologue and epilogue places each of these records at its documented offset.""",
  ["inputs"], "all octet values of every record (about 400 kB of prologue and 380 kB of epilogue), polynomial blocks and IMPF records present or absent",
  "Only two sample products are available to the tests, of which a handful of fields are used; a field read a few octets off, from the wrong array element or truncated goes unseen.",
  ["msat/hrit/MSG_data_SatelliteStatus.cpp", "msat/hrit/MSG_data_ImageAcquisition.cpp", "msat/hrit/MSG_data_CelestialEvents.cpp", "msat/hrit/MSG_data_ImageDescription.cpp", "msat/hrit/MSG_data_RadiometricProc.cpp", "msat/hrit/MSG_data_GeometricProc.cpp", "msat/hrit/MSG_data_IMPFConfiguration.cpp", "msat/hrit/MSG_data_ImageProdStats.cpp", "msat/hrit/MSG_data_NavigExtrResult.cpp", "msat/hrit/MSG_data_RadiometricQuality.cpp", "msat/hrit/MSG_data_GeometricQuality.cpp", "msat/hrit/MSG_data_TimelinComple.cpp"],
  [("record decoders", "msat/hrit/MSG_data_*.cpp:read_from"), ("record sequence", "msat/hrit/MSG_data_format.cpp, MSG_data.cpp")],
  ["decoded members of MSG_data_prologue and MSG_data_epilogue"])
P("H04", "HRIT data fields decode to their own payload; truncated ones are refused",
  """Reading the data field of an HRIT file decodes exactly the payload that its file type and annotation name: uncompressed images keep their octets; compressed images are handed to the decompressor with the image's own size, depth and format; text, GTS and binary messages are kept octet for octet under the annotation's name; key messages give every key; SEVIRI and foreign satellite prologues and epilogues are decoded by satellite; nothing else is decoded.
  A data field that is shorter than declared, of an unknown type, missing the header record it depends on, or too short for its prologue, epilogue or product header is refused with an exception, without reading outside its buffers or terminating the process.""",
  ["inputs", "configurations"], "every file type; arbitrary payload octets up to the stated sizes; every declared length against shorter files; every truncation class of SEVIRI prologues and epilogues; foreign prologues with arbitrary length fields",
  "Tests read three intact product kinds; interrupted transfers and message products never occur in them.",
  ["msat/hrit/MSG_data.cpp", "msat/hrit/MSG_data_image.h", "msat/hrit/MSG_data_key.cpp", "msat/hrit/MSG_data_gts.cpp", "msat/hrit/MSG_data_text.cpp", "msat/hrit/MSG_data_SGS_header.cpp"],
  [("payload dispatch", "msat/hrit/MSG_data.cpp:read_from"), ("message payloads", "msat/hrit/MSG_data_{key,gts,text,binary}.cpp")],
  ["members of MSG_data", "files written for messages", "exceptions"])
P("H05", "Counts convert to radiance, brightness temperature and reflectance",
  """For SEVIRI channels 1-3 and 12 the calibration table gives radiance = count * slope + offset of that channel, for channels 4-11 the brightness temperature (c2 nu / ln(1 + c1 nu^3 / radiance) - B) / A with EUMETSAT's central wave number, A and B of that channel; the table has an entry for every count of the sample depth, temperatures of positive radiances grow with the count, and the channel is reported as linear exactly when the table is.
  Reflectance is 100 * radiance / (channel irradiance at the day's Sun distance * cosine of the solar zenith angle, at least cos 80 degrees) for the solar channels and is refused for any other.""",
  ["inputs"], "arbitrary finite slopes and offsets, every channel, every count of small tables and an arbitrary count of a 10 bit table; arbitrary radiance, position, date and time",
  "Calibration values of one product cannot tell the channels' constants apart, and the reflectance function is not called by any test.",
  ["msat/hrit/MSG_data_RadiometricProc.cpp"],
  [("calibration table", "MSG_data_RadiometricProc::get_calibration"), ("linearity", "MSG_data_RadiometricProc::get_slope_offset"), ("reflectance", "radiance_to_reflectance")],
  ["table values", "slope, offset and linearity", "reflectance values"])
P("F01", "Satellite, channel and code tables agree and invert each other",
  """HRIT and WMO spacecraft identifiers convert into each other without loss for every satellite known to both, spacecraft names and identifiers invert each other and agree between the HRIT and the generic tables, and identifiers or names that are not listed map to the documented unknown values.
  Every SEVIRI channel has its own name, unit (K for channels 4-11, radiance otherwise), level, number of significant digits, missing value, central wavelength and wave number, and wavelength and wave number select that channel again; anything that is not a SEVIRI channel is reported as unknown or refused. File types, compressions, formats, quality flags and spectral channels are named by their codes.""",
  ["inputs"], "every identifier within the stated ranges, every octet code, every wavelength",
  "Tests sample three conversions; a swapped or duplicated table row only shows for its own satellite or channel.",
  ["msat/facts.cpp", "msat/hrit/MSG_spacecraft.cpp", "msat/hrit/MSG_channel.cpp", "msat/hrit/MSG_filetype.cpp", "msat/hrit/MSG_compression.cpp", "msat/hrit/MSG_data_format.cpp", "msat/hrit/MSG_quality.cpp"],
  [("identifier tables", "msat/facts.cpp"), ("HRIT code names", "msat/hrit/MSG_*.cpp")], ["returned identifiers, names and numbers"])
P("F02", "Scaling factors, pixel sizes and Earth extents convert consistently",
  """The column and line scaling factors of the two nominal SEVIRI resolutions (normal and HRV, either sign) correspond exactly to the nominal pixel sizes in both directions, within a millimetre of tolerance; any other factor corresponds to the pixel size (orbit radius - Earth radius) * tan(1 degree / factor), and back.
  The Earth extent in pixels is 2 asin(Earth radius / orbit radius) at the given resolution, 3622 pixels for the nominal one, and is inverted by the corresponding resolution. Column and line functions agree.""",
  ["inputs"], "all scaling factors, pixel sizes and extents in the stated ranges",
  "Tests check the two nominal values and a few round trips.",
  ["msat/facts.cpp"], [("resolution conversions", "msat/facts.cpp:pixelHSizeFromCFAC..pixelVSizeFromSeviriDY")], ["returned sizes, factors and extents"])
P("F03", "Day of year, solar and satellite zenith angles follow their formulas",
  """The day of the year counts the Gregorian calendar with its leap years; the cosine of the solar zenith angle is sin(declination) sin(latitude) + cos(declination) cos(latitude) cos(hour angle), with declination and equation of time of that day and the hour in UTC including minutes, for any position; the satellite zenith angle is 90 degrees minus the elevation of a geostationary satellite at longitude 0.""",
  ["inputs"], "any date, hour, latitude and longitude", "Tests compare the angles at a handful of places and dates with coarse tolerances.",
  ["msat/facts.cpp"], [("angles", "msat/facts.cpp:jday, cos_sol_za, sat_za")], ["returned day and angles"])
P("X02", "An xRIT name stands for exactly the files of its product",
  """A product name H:SAT:PRODUCT:CHANNEL:TIME (in the short or the long HRIT form, with or without a directory) splits into its resolution, satellite, product, time and channel whatever the characters of those fields, and prints back as the same name; names that do not have that form are refused with an exception.
  The prologue, epilogue and segments found for a name are exactly the files in the directory whose HRIT names carry the same resolution, satellites, product, channel and time; a missing or ambiguous prologue or epilogue is reported, and an alternative channel of the same product is found by the same rules.""",
  ["inputs", "configurations"], "all characters in all fields of the stated widths; every short name string to 5 (7) octets; directories of up to three files with arbitrary names",
  "Tests parse four names; which files a name selects depends on what else happens to be in the reception directory, which the tests keep empty.",
  ["msat/xrit/fileaccess.cpp", "msat/xrit/fileaccess.h"],
  [("name parsing", "msat/xrit/fileaccess.cpp:FileAccess::parse"), ("file selection", "msat/xrit/fileaccess.cpp:prologueFile/epilogueFile/segmentFiles")],
  ["FileAccess members and printed name", "selected file lists", "exceptions"])
P("X03", "GDAL's xRIT datasets describe and return the image of the product",
  """Opening a complete xRIT product through GDAL gives one band of the size of the full disk whose spacecraft, time, channel, unit, calibration, projection and north-up geotransform are those stated by the prologue and the segment headers; its lines are the segments' counts for the linear channels and their brightness temperatures for the others, at their place in the full disk, zero where there is no valid sample. Channel suffixes and MSAT_COMPUTE select the derived product they name, built on the right channels.
  Whatever is not a usable product (wrong names, missing prologue, channels or sample sizes out of range, damaged segments) is refused or is a read error: no exception leaves the driver and no memory outside of the buffers is touched.""",
  ["inputs", "configurations"], "all channels and spacecraft, calibrations and grid steps in the stated ranges, the stated sets of damaged products, suffixes and options",
  "The driver tests open a few real products whose decompression is not even available in this build; damaged products and most channels are never opened.",
  ["gdal/xrit/dataset.cpp", "gdal/xrit/rasterband.cpp", "gdal/xrit/xrit.cpp"],
  [("dataset description", "gdal/xrit/dataset.cpp:XRITDataset::init"), ("band and samples", "gdal/xrit/rasterband.cpp:XRITRasterBand::init, IReadBlock"), ("product selection", "gdal/xrit/xrit.cpp:XRITOpen")],
  ["GDAL metadata, geotransform, projection, band attributes", "samples returned by ReadBlock", "XRITOpen result"])
P("X01", "Image lines are assembled from the right segments, missing ones as zero",
  """Scanning a product finds each segment by the sequence number in its header and not by file order, derives line count, segment height, HRV windows and scan direction from the headers and the epilogue, and refuses products that cannot be assembled.
  Each image line, read in any order and any number of times, holds the samples of exactly the segment line that was scanned there, west to east, for any segment height and scan direction; lines of missing segments and lines outside of the image are zero; a damaged segment is reported every time and disturbs no other; HRV lines start at the column of their own window.""",
  ["inputs", "histories", "configurations"], "products of up to 8 segments present or missing, any samples, every line for small segment heights, all reading sequences over four segments of the stated length, any HRV coverage",
  "DataAccess has no test of its own; the images in the tests are complete, so missing segments, the two-entry segment cache and HRV windows are never exercised.",
  ["msat/xrit/dataaccess.cpp", "msat/xrit/dataaccess.h"],
  [("segment scan", "msat/xrit/dataaccess.cpp:DataAccess::scan, scanSegment"), ("line addressing", "msat/xrit/dataaccess.cpp:line_read, line_start"), ("segment cache", "msat/xrit/dataaccess.cpp:segment")],
  ["segnames, sizes and HRV grid", "samples returned by line_read", "line_start"])
P("R01", "Computed GDAL datasets give the reflectance, angles or day of their source",
  """Each pixel of a computed dataset is the documented function of the same pixel of its sources, whatever block it is read in.
  The reflectance of a visible channel is 100 * radiance / (the channel's solar irradiance at that day's Sun distance * cosine of the solar zenith angle, at least cos 80 degrees), limited to 0..100; that of the 3.9 um channel is the CO2 corrected solar share of the radiance, from channels 4, 9 and 11;
  the solar angle dataset is the cosine of the zenith angle limited to 0..1, the satellite angle dataset the zenith angle in radians limited to 0..1, the day dataset the day of the year; points off the Earth give zero.
  The result takes projection, geotransform, time, size and metadata from its source; sources that disagree on any of these, that lack calibration, time, projection or a needed channel, or channels without reflectance are refused, and a source that cannot be read is a read error.""",
  ["inputs", "configurations"], "all counts of small blocks, the stated calibrations, positions, times and source sets",
  "Tests look at a few pixels of two products; wrong channel constants, block offsets, limits and disagreeing sources are not exercised.",
  ["gdal/reflectance/reflectance.cpp", "gdal/reflectance/cos_sol_za.cpp", "gdal/reflectance/sat_za.cpp", "gdal/reflectance/jday.cpp", "gdal/reflectance/base.cpp", "gdal/reflectance/pixeltolatlon.cpp"],
  [("source selection", "gdal/reflectance/reflectance.cpp:ReflectanceDataset::add_source, init_rasterband"), ("pixels", "gdal/reflectance/*.cpp:IReadBlock")],
  ["GDAL metadata and georeferencing of the computed dataset", "samples returned by ReadBlock", "exceptions"])

P("O01", "OpenMTP-IDS files are read and written octet for octet",
  """Numbers of 2 and 4 octets are read and written in the octet order asked for. A file header, record header, scan line header, scan line and whole file decode to exactly the fields and pixels in their octets, in order,
  and are written back as the same octets; a header or line built from its setters is written as the octets that read back as those values. scanline() gives all the scan lines of all records in file order, scanline(i) the i-th and
  scanline(from, to) those from `from` up to but not including `to`, clipped to what there is.""",
  ["inputs", "configurations"], "all octets of headers, record headers and scan lines; all line counts, pixel counts and ranges within the bounds",
  "There is no test of the OpenMTP-IDS reader at all.",
  ["msat/omtp-ids/OpenMTP-IDS.cc", "msat/omtp-ids/ByteSex.hh", "msat/omtp-ids/FileHeader.cc", "msat/omtp-ids/Record.cc", "msat/omtp-ids/ScanLine.cc", "msat/omtp-ids/LineHeader.cc"],
  [("octet order", "msat/omtp-ids/ByteSex.hh:read4, write4"), ("ranges of lines", "msat/omtp-ids/OpenMTP-IDS.cc:scanline")],
  ["fields of the headers", "pixels", "octets written"])
P("O02", "A damaged OpenMTP-IDS file is refused with a message",
  """A file that does not exist, is cut off anywhere, announces more records or lines than it has, or whose lengths do not fit its contents is refused with an exception carrying a readable message, and the
  program goes on; no access leaves the data that was read. An object without records can be asked for its lines and written.""",
  ["inputs", "fault_sequences"], "all truncations and announced counts of a small file; wrong header, record and line lengths",
  "There is no test of the OpenMTP-IDS reader at all.",
  ["msat/omtp-ids/OpenMTP-IDS.cc", "msat/omtp-ids/Record.cc", "msat/omtp-ids/ScanLine.cc"],
  [("checks while reading", "msat/omtp-ids/OpenMTP-IDS.cc:read")],
  ["exceptions and their text"])
P("G01", "An image written as GRIB is read back with its data, place, time and channel",
  """For each template (msat/wmo, the default, msat/ecmwf and msat/msat) an image of a geostationary view written with CreateCopy and opened again has the same size, the same values in the same place after scale and offset are applied, missing
  values still missing, the same image time (to the minute in edition 1, to the second in edition 2), spacecraft, channel, name and unit, the same sub-satellite longitude, and the same position to a hundredth of a metre after the pixel size is rounded to
  what GRIB stores, for full disk and HRV resolution. GRIB messages from elsewhere are found behind any leading header and show the values, time, spacecraft, channel (from local section, level or central wave number), origin and pixel size
  that their keys say; other files are left to other drivers.""",
  ["inputs", "configurations"], "sample values, scales, channels, spacecraft, positions, longitudes, times, keys of foreign messages",
  "The GRIB tests import one sample image and compare its georeferencing; nothing is written with other templates, channels, or missing values.",
  ["gdal/grib/grib.cpp", "gdal/grib/utils.h", "msat/facts.cpp"],
  [("writing", "gdal/grib/grib.cpp:CreateGRIB, CreateGRIB1, CreateGRIB2, CreateGribECMWF"), ("reading", "gdal/grib/grib.cpp:GRIBDataset::init, GRIBRasterBand"), ("times", "gdal/grib/utils.h:setTime, formatTime")],
  ["dataset and band returned by CreateCopy and Open"])
P("G02", "The GRIB driver reports what it cannot write or read",
  """A source without bands, spatial reference, projection or data, with a rotated or unknown grid, another satellite height, an unreadable time, an unreadable band, or an unknown template is refused, and no file is written. When any step of writing fails, including the
  last octets of the file, no dataset is returned, and never what was in the file before. A message without its keys, of another edition, with another number of values or that cannot be decoded is refused, or its read fails, with a GDAL
  error; no exception leaves the driver, and messages are released.""",
  ["fault_sequences", "inputs"], "every ecCodes call failing, every missing key, all rotation terms and pixel sizes",
  "No test makes a write or a read fail.",
  ["gdal/grib/grib.cpp", "gdal/grib/utils.h"],
  [("checks before writing", "gdal/grib/grib.cpp:CreateGRIB::create, grid_definition_section"), ("writing the file", "gdal/grib/utils.h:Grib::write"), ("reading", "gdal/grib/grib.cpp:IReadBlock, GetGeoTransform")],
  ["result of CreateCopy, Open, ReadBlock and GetGeoTransform", "files written"])
P("N01", "MSG native products: headers, packets and samples decode to what they hold",
  """A U-MARF native file is read into exactly what its octets mean: the packet header (38 octets) and line header (27 octets) fields, each text field of the product header up to its own width, the level 1.5 header and trailer records as in HRIT files, and ten bit samples, floor(8 n / 10) of them from n octets, most significant bit first.
  Of a whole product every selected channel's image has the size given by the text header (2 or more lines and columns, HRV with its own), holds each line's samples at its place in order, zero where the file has none, and channels that were not selected give nothing. Copies of a line own their samples; the grey map dump of a channel has its size and samples.""",
  ["inputs", "configurations"], "all octets of the packets, lines, records and samples of small products, band selections, order of trailer and data",
  "There is no test of the native reader at all.",
  ["msat/msg-native/MSG_native.cpp", "msat/msg-native/MSG_native_header.cpp", "msat/msg-native/MSG_native_line.cpp", "msat/msg-native/MSG_native_linedata.cpp", "msat/msg-native/MSG_native_lineheader.cpp", "msat/msg-native/MSG_native_trailer.cpp", "msat/msg-native/U_MARF_Header.cpp", "msat/msg-native/IMPF_Packet_Header.cpp"],
  [("headers and trailer", "msat/msg-native/MSG_native_header.cpp:read, MSG_native_trailer.cpp:read"), ("lines", "msat/msg-native/MSG_native_line.cpp:read, MSG_native_linedata.cpp:to_sample"), ("images", "msat/msg-native/MSG_native.cpp:read, data, pgmdump")],
  ["public members of the header, line and trailer classes", "lines, pixels, data of each channel", "contents of the dump"])
P("N02", "MSG native products that are damaged are refused, never read out of bounds",
  """Whatever the lengths, text header numbers and line contents of a native file say: a header or trailer packet of another length or cut off, a line packet that is not completely there, text header fields that are empty, not numbers, negative or too large, and missing lines end in an exception derived from std::exception;
  lines with more or fewer samples than columns, more or fewer lines than announced, and band selections of any length stay within the image. A file that is not there is reported by open. No access out of bounds, no process termination.""",
  ["inputs", "fault_sequences"], "all packet lengths, truncations, text header defects and disagreeing sizes within the bounds",
  "Damaged native files are never tested.",
  ["msat/msg-native/MSG_native.cpp", "msat/msg-native/MSG_native_header.cpp", "msat/msg-native/MSG_native_line.cpp", "msat/msg-native/MSG_native_trailer.cpp", "msat/msg-native/U_MARF_Header.cpp"],
  [("refusal", "msat/msg-native/*:read"), ("limits", "msat/msg-native/MSG_native.cpp:read, data")],
  ["exceptions", "memory accesses", "images"])
P("I01", "HRI file headers decode to the values they hold",
  """Every field of the header of a Meteosat HRI file is decoded from its own octets: fixed point decimal numerals (a space counts as zero), hexadecimal floating point numbers of 4 and 8 octets (saturating at the largest number, zero for zero fractions and numbers too small), big endian integers;
  label (counts, format, channel presence, reduction, encryption, scan direction and the format code built from them), identification (satellite, date from year and day of year, time, offsets, longitude), the 1360 octet interpretation data table and the 120 decryption key slots (station = 16 * first + second octet, found by station and key number). Unknown formats and satellites are refused with an exception.""",
  ["inputs"], "all octet values of numerals, floats, label, flags, integers, satellites and key slots; dates 1977-2010 and all days of a leap and a common year",
  "There is no test of the HRI reader at all.",
  ["msat/hri/HRI_machine.cpp", "msat/hri/HRI_subframe_label.cpp", "msat/hri/HRI_subframe_identification.cpp", "msat/hri/HRI_subframe_interpretation.cpp", "msat/hri/HRI_subframe_keyslot.cpp"],
  [("numbers", "msat/hri/HRI_machine.cpp"), ("subframes", "msat/hri/HRI_subframe_*.cpp:readfrom")],
  ["public members and inquiries of the subframe classes", "exceptions"])
P("I02", "HRI images hold the disseminated lines, at their size, with their calibration",
  """For each of the disseminated formats AV, AVH, AW, AIW, AIVH, BW, BIV, BIVH, BIW, XI, XW, XVH, plain (364 octet frames) or Tecnavia, the images have the format's number, bands and sizes (A 2500 x 2500, visible 5000 x 5000; B 1250 x 625, visible 2500 x 1250; X 1250 x 1250) and hold every line's samples at its place (second half lines two pixels before the middle), zero where a plain file ends early;
  satellite, date, orbit radius, format, seed and geolocation are those of the header. Calibration tables follow the satellite's formula and the header's coefficients (Meteosat, INDOX), or the fixed tables of GOES and GMS. Lines and pixels outside an image are refused; so are missing files, lost synchronisation, unknown frame or image formats and satellites, channel sets that are not disseminated, and incomplete Tecnavia files - with an exception.""",
  ["inputs", "configurations", "fault_sequences"], "all samples of the first, middle and last line of complete files in every format, all put and get positions, calibration coefficients, damaged headers",
  "There is no test of the HRI reader at all.",
  ["msat/hri/HRI.cpp", "msat/hri/HRI_image.cpp", "msat/hri/HRI_geolocation.h"],
  [("files", "msat/hri/HRI.cpp:readfrom, get_dataline, mod_get_dataline"), ("images", "msat/hri/HRI_image.cpp:put_line, put_halfline, get_line, get_pixel, get_calibration")],
  ["images and calibration tables", "interface getters of Hri", "exceptions"])
P("U01", "Text encodings give back what was encoded and decode anything safely",
  """Encoding any string of octets as base64, as a URL component or as C string escapes and decoding it again gives the same octets, and the encoded form has only the characters that form allows (padded groups of four, unreserved characters and % escapes, no control characters or bare quotes).
  Decoding works on any text: escapes have the value they stand for, incomplete or unknown ones are handled without reading outside the text, and a quoted C string ends at its first unescaped quote with the length consumed reported.""",
  ["inputs"], "all octet strings within the bounds, and all texts of small alphabets that make every escape, complete, cut short or wrong",
  "The string utilities have no test in the repository.",
  ["msat/utils/string.cc", "msat/utils/string.h"],
  [("base64", "msat/utils/string.cc:encode_base64/decode_base64/invbase64"), ("URL encoding", "msat/utils/string.cc:encode_url/decode_url"), ("C string escapes", "msat/utils/string.cc:encode_cstring/decode_cstring")],
  ["returned strings", "length consumed"])
P("U02", "Splitting, joining, stripping and path functions follow their definitions",
  """Splitting a text at a separator gives exactly the words between separators in order (without empty ones where asked), terminates for every text and separator including empty ones, and joining the words gives the text back.
  Stripping removes exactly the white space at the ends; case conversion changes only letters; prefix and suffix tests are exact. The base name, directory name, normal form and concatenation of paths are those of POSIX: normalising never changes what a path without symbolic links denotes.""",
  ["inputs"], "all texts over letters, slashes and dots within the bounds; all octet strings for white space and case",
  "The string utilities have no test in the repository.",
  ["msat/utils/string.cc", "msat/utils/string.h"],
  [("splitting", "msat/utils/string.cc:Split::const_iterator"), ("paths", "msat/utils/string.cc:basename/dirname/appendpath/normpath"), ("stripping", "msat/utils/string.h:strip/lstrip/rstrip/join")],
  ["returned strings", "sequence of words"])
P("T01", "Translating and recoding show exactly what was asked for, or refuse",
  """Translating a dataset with a source window (in pixels or in projected coordinates), an output size in pixels or per cent, a band list, an output type, a scaling, a missing value, bounds, a projection, control points or palette expansion gives an image
  with exactly that window, size, bands, types, value mapping and georeferencing, keeping metadata, projection and band attributes; a window not fully inside the image, a size of no pixels, a missing band or unusable option is refused with no dataset left over, and nothing to change gives
  the dataset itself. The configured object is not changed by use: translating another dataset with it gives the same as a fresh one. Recoding a dataset hands that image with the given options to the driver once, returns its result, and releases everything.""",
  ["inputs", "configurations", "histories"], "windows of any integers, sizes, band lists, scalings, bounds, and the same configuration used on several datasets",
  "The recode tests copy one sample image with one crop area; no test uses GDALTranslate options.",
  ["msat/gdal/gdaltranslate.cpp", "msat/gdal/dataset.cpp"],
  [("translate", "msat/gdal/gdaltranslate.cpp:GDALTranslate::translate"), ("recode", "msat/gdal/dataset.cpp:recode")],
  ["requests made of GDAL's virtual dataset", "dataset handed to the driver"])
P("T02", "Georeferencing conversions agree, and dataset wrappers pass on what they wrap",
  """The space view projection has the given longitude and the height and ellipsoid of the format; the geotransform decodes to its pixel size and centre; inverting a geotransform gives back every pixel it can, and refuses exactly the singular ones. Pixels, projected and geographic coordinates convert there and
  back to the same pixel, to the nearest pixel in between; datasets without georeferencing or with a projection that cannot be transformed are refused, failed transformations are reported and give no pixel, and everything is released. A proxy dataset shows all that the wrapped dataset shows, known or unknown;
  a calibrated dataset shows 16 bit counts as scale times count plus offset, missing counts as missing, and other bands unchanged, for blocks of any size, and passes on failures.""",
  ["inputs", "fault_sequences"], "longitudes, pixels, coordinates, grids, counts, calibrations, unknown attributes, failing transformations",
  "Tests look at the georeferencing of a few sample images; wrappers have none.",
  ["msat/gdal/dataset.cpp", "msat/gdal/dataset.h"],
  [("conversions", "msat/gdal/dataset.cpp:GeoReferencer, invertGeoTransform, decodeGeotransform"), ("wrappers", "msat/gdal/dataset.cpp:ProxyDataset, CalibratedRasterBand")],
  ["converted coordinates", "attributes and blocks of wrappers"])
P("T03", "The msat command does what its options say for each file, or reports it cannot",
  """Every file named is converted, viewed or drawn as the options say: exactly the area in pixels, or between the given latitudes and longitudes, or around the given place, computed for each file from its own georeferencing; the given size; the given bands by number or name, in their order; images drawn without a size
  are reduced to at most 1280 pixels, others left alone, whatever came before. Output is named after spacecraft, sensor, channel and time without spaces and dots, with the driver's extension; metadata of another file is copied where asked. A bad command line, a file that cannot be opened, an area outside the image,
  a band, place or driver that does not exist, or a failing driver or picture gives a non-zero exit status and no output for that file, without crashing.""",
  ["inputs", "configurations", "histories", "fault_sequences"], "options in any order, files of different size, grid and bands one after another, names, failures of each step",
  "The repository has no test of its commands.",
  ["tools/msat.cpp", "msat/facts.cpp"],
  [("command line", "tools/msat.cpp:Msat::parse_cmdline"), ("files", "tools/msat.cpp:Msat::main, scale_if_needed"), ("names", "tools/msat.cpp:output_file_name")],
  ["exit status", "copies requested of drivers", "pictures", "text shown"])
P("T04", "Gray pictures show larger values brighter, from black to white",
  """Drawing a band gives a gray picture of its size in which the lowest value that is present is black, the highest white, and those between in proportion; equal values are equally gray, larger ones never darker. Missing, infinite and undefined values do not affect the others, for any missing value or none. With given limits,
  values below are black, above white, and in proportion between. A single value is shown as itself as far as it fits. Bands that cannot be read, and file names without a format, are reported and nothing is written.""",
  ["inputs", "fault_sequences"], "pixel values of each type, missing values, limits",
  "The repository has no test of its pictures.",
  ["tools/image.cpp", "tools/image.h"],
  [("range", "tools/image.cpp:Stretch::compute_if_needed"), ("gray", "tools/image.cpp:Stretch::rescale"), ("drawing", "tools/image.cpp:imageToMagick, export_image")],
  ["gray octets handed to the image library", "returned success"])
P("O03", "The OpenMTP-IDS tools cut, draw, copy and list what their file holds",
  """OpenMTP-IDS_sector writes the 510 lines of 256 pixels which start at line 2655 and pixel 546, with the line numbers, channel and file header of the image, empty lines where the image ends before, in records of one size; an image that does not cover the sector is reported. OpenMTP-IDS_to_pgm draws for each of the visible, infrared and water
  vapour channels the lines of that channel in their order, one picture as wide as its lines, and nothing for a channel that is not there; lines of different widths are reported. OpenMTP-IDS_write copies a file octet by octet. OpenMTP-IDS_debug shows every line of every record. Files that are missing or incomplete are reported with a non-zero status, and nothing is written.""",
  ["inputs", "fault_sequences"], "pixels, channels, numbers of lines and records, widths, truncations",
  "There is no test of the OpenMTP-IDS tools.",
  ["tools/omtp-ids/OpenMTP-IDS_sector.cc", "tools/omtp-ids/OpenMTP-IDS_to_pgm.cc", "tools/omtp-ids/OpenMTP-IDS_write.cc", "tools/omtp-ids/OpenMTP-IDS_debug.cc"],
  [("sector", "tools/omtp-ids/OpenMTP-IDS_sector.cc:main"), ("pictures", "tools/omtp-ids/OpenMTP-IDS_to_pgm.cc:main"), ("copy", "tools/omtp-ids/OpenMTP-IDS_write.cc:main"), ("listing", "tools/omtp-ids/OpenMTP-IDS_debug.cc:main")],
  ["files written", "exit status", "printed lines"])
P("M01", "OpenMTP files give the header, image and calibration they hold",
  """Every field of an OpenMTP header has the big-endian value of its octets: the first section at its documented positions; the second one (processing, subimages, histograms of 256 counts, orbit, attitude vectors, horizon, times, fits) for images that are not rectified, where rectified images skip it; the deformation and correction tables of the third section, with the second set for
  visible composites only. The kind of each slot, channel, processing, origin and quality code is told exactly by its number. The image is every pixel of every line, of the file read last. Meteosat 7 counts are calibrated to temperatures (infrared, water vapour) or percent (visible), others to 1. Date, time and their texts, names, units and the formats A, B or subwindow follow from the header. OpenMTP_info lists each field under its name.""",
  ["inputs"], "header octets, channels, processing codes, pixels, sizes, dates",
  "There is no test of the OpenMTP reader, which is not part of the default build.",
  ["msat/openmtp/OpenMTP.cpp", "msat/openmtp/OpenMTP_binary_header.cpp", "msat/openmtp/OpenMTP_binary_header.h", "msat/openmtp/OpenMTP_image.cpp", "msat/openmtp/OpenMTP_image_line.cpp", "msat/openmtp/OpenMTP_machine.cpp", "tools/openmtp/OpenMTP_info.cc"],
  [("header fields", "msat/openmtp/OpenMTP_binary_header.cpp:read"), ("numbers", "msat/openmtp/OpenMTP_machine.cpp:int4"), ("image and calibration", "msat/openmtp/OpenMTP_image.cpp:read"), ("date, formats and names", "msat/openmtp/OpenMTP.cpp:get_datetime"), ("listing", "msat/openmtp/OpenMTP_binary_header.h:operator<<")],
  ["accessor values", "pixels", "calibration table", "listing"])
P("M02", "A damaged OpenMTP file is refused, and OpenMTP_info reports it",
  """An OpenMTP file that cannot be opened, ends before its last line, or announces an image of less than 1 or more than 5000 lines or pixels is refused with an exception that says so, without touching memory outside its buffers, and the same object can then read another file. Channels and satellites that are not known are not given a name and their counts are not
  calibrated. OpenMTP_info reports each file it cannot read, and a missing argument, with a non-zero status.""",
  ["inputs", "fault_sequences"], "truncations, announced sizes, codes, arguments",
  "There is no test of the OpenMTP reader.",
  ["msat/openmtp/OpenMTP.cpp", "msat/openmtp/OpenMTP_ascii_header.cpp", "msat/openmtp/OpenMTP_binary_header.cpp", "msat/openmtp/OpenMTP_image.cpp", "msat/openmtp/OpenMTP_image_line.cpp", "tools/openmtp/OpenMTP_info.cc"],
  [("sections", "msat/openmtp/OpenMTP_binary_header.cpp:read"), ("sizes", "msat/openmtp/OpenMTP_image.cpp:read"), ("lines", "msat/openmtp/OpenMTP_image_line.cpp:read"), ("tool", "tools/openmtp/OpenMTP_info.cc:main")],
  ["exceptions", "exit status", "memory accesses"])
P("U03", "INI files give each key of each section the value last given to it",
  """iniparser_new reads lines of the form [section] and key = value, where blanks around them, comments, empty lines and lines of no form are passed over, values may be in single or double quotes, which protect ; and #, an empty quoted value is empty, and names are the same in upper and lower case; the last of several values of a key counts. Getters return the text,
  number or yes/no of a name, or the value asked for when there is none, when the name is that of a section, or without a file; edits are seen by later lookups; any number of entries is kept; what is dumped of sections with values that need no quotes reads back the same; lines of any length are read without overrun.""",
  ["inputs", "histories"], "lines, names, values, histories of edits",
  "There is no test of the INI parser.",
  ["msat/iniparser.c", "msat/iniparser.h"],
  [("reading", "msat/iniparser.c:iniparser_new"), ("lookup", "msat/iniparser.c:dictionary_get"), ("edits", "msat/iniparser.c:dictionary_set"), ("getters", "msat/iniparser.c:iniparser_getboolean")],
  ["values returned", "memory accesses"])
P("D01", "A Thorn SDS DB1 directory gives its area, channel, samples and calibration",
  """MSG_db1_data returns each field of the AoI, INFO.DBI and calibration files of a directory, or its documented default where it is missing, the samples of the channel last chosen, and the calibrated value of each count, 0 where there is none. Without a directory, channel, description or samples, or with an impossible number of bits per pixel, there is no data and every
  getter says so; a missing area or calibration leaves their defaults. db1_to_image draws each sample in its place, turned by half a turn unless the scan was north to south, with the overlay it is given, scaled, under the name of satellite, channel and time, and reports with a non-zero status what it cannot draw.""",
  ["inputs", "configurations", "fault_sequences"], "fields present or missing, channels, samples, unusable files, options",
  "There is no test of the DB1 reader, which is not part of the default build.",
  ["msat/thornsds_db1/thornsds_db1.cpp", "tools/thornsds_db1/db1_to_image.cpp"],
  [("channel", "msat/thornsds_db1/thornsds_db1.cpp:set_channel"), ("fields", "msat/thornsds_db1/thornsds_db1.cpp:get_INFO_image_pixels"), ("picture", "tools/thornsds_db1/db1_to_image.cpp:main")],
  ["accessor values", "pictures handed to the image library", "exit status"])
P("T05", "Pictures and listings of HRIT and native files show the samples in their place",
  """XRIT2Image joins the segments of the asked resolution, satellite, channel and time by their segment number into one picture turned by half a turn, zero where a segment is missing, and does to it what its options ask for (normalise, overlay except on HRV, scale below 1), under the name made of its arguments. native2Image writes the normalised, turned and scaled
  picture of the asked channel. xritdump shows the size, the darkest and brightest sample of each segment, and draws segments and the full disk image with characters from darkest to brightest, whatever the brightness and size. All of them report files that are missing, incomplete, not image segments or whose numbers contradict each other, and pictures that cannot be written, with a non-zero status.""",
  ["inputs", "configurations", "fault_sequences"], "samples, subsets of segments, header numbers, options, unusable files",
  "There is no test of these tools.",
  ["tools/hrit/XRIT2Image.cpp", "tools/hrit/xritdump.cpp", "tools/msg-native/native2Image.cpp", "tools/msg-native/nativedump.cpp"],
  [("joining segments", "tools/hrit/XRIT2Image.cpp:convert"), ("native picture", "tools/msg-native/native2Image.cpp:main"), ("listing", "tools/hrit/xritdump.cpp:do_dump"), ("native listing", "tools/msg-native/nativedump.cpp:main")],
  ["pictures handed to the image library", "printed text", "exit status"])
