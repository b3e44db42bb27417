#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
IO='include/boost/astronomy/io/'; CO='include/boost/astronomy/coordinate/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p('C01','Opening a FITS file and writing it out preserves every HDU',
 'For every well-formed FITS file made of a primary HDU followed by ASCII and binary tables, opening it and writing it to another path yields a file with the same HDUs in the same order, the same header cards and the same data: image and binary-table data (including the heap behind the rows) byte for byte, ASCII-table fields (which do not overlap) with the same text at the same columns. Writing again, or repeating open and write any number of times, changes nothing further, and the source file and the opened object stay as they were.',
 ['inputs','histories'],'All well-formed files of the supported HDU kinds (any BITPIX, NAXIS, card mix, column layout, record-exact sizes), all numbers of open/write generations.',
 'The tests write one sample HDU and never compare the file; headers or data that fill a 2880-byte record exactly, gaps between columns and bytes that look like blanks are not sampled.',
 [IO+'fits_reader.hpp',IO+'default_hdus.hpp',IO+'header.hpp',IO+'primary_hdu.hpp',IO+'ascii_table.hpp',IO+'binary_table.hpp',IO+'fits_stream.hpp'],
 [('fits_io::write_to and the writer visitor',IO+'fits_reader.hpp'),('write_to of each HDU, find_unit_end',IO+'primary_hdu.hpp')],['bytes of the written file','re-opened HDUs'])
p('C02','Well-formed FITS files are read completely and at the right places',
 'For every well-formed FITS file (BITPIX 8, 16, 32, -32 or -64), opening it yields exactly its HDUs in file order, each with the header values, dimensions, table cells and pixels the file contains, and the control block reports each HDU\'s true header and data byte offsets and index; lookup by index and by HDU name returns that HDU and any other index or name is reported as std::out_of_range, asking for it as another kind of HDU with an exception (offsets and lookup by name for extension types that occur once in the file). Reading only the headers reports the same HDUs, headers and offsets, without data. Re-initializing the reader with another file forgets the previous one.',
 ['inputs','configurations','histories'],'All well-formed files (as C01), both reading options, any sequence of files read with one reader object.',
 'The tests read three sample files, none of which has a header or data block that ends exactly on a record boundary or lacks optional keywords.',
 [IO+'fits_reader.hpp',IO+'fits.hpp',IO+'fits_stream.hpp',IO+'default_hdus.hpp'],
 [('read_only_headers / read_entire_hdus',IO+'fits_reader.hpp'),('set_unit_end record skipping',IO+'fits_stream.hpp')],['get_hdu_list, operator[], get_control_block_info'])
p('C03','Files written after edits are valid FITS that hold the edited values',
 'After any sequence of edits to the tables of an opened file (through column views, the cell matrix or replacing the data), the written file is valid FITS: its length is a multiple of 2880, headers are 80-column text cards closed by END and padded with blanks, data has the size the header announces, filled with zeros (blanks for ASCII tables). Decoding those bytes by the FITS rules gives exactly the edited table (numbers put into ASCII fields to six significant digits) and every untouched cell and HDU unchanged. Content that does not fit its field, a table whose rows or fields are no longer as many as its header announces, and row bytes outside of the columns or overlapping fields that cannot be kept, are refused with an exception when written.',
 ['inputs','histories'],'All files, all edit sequences (cell, column, kind of access), all value types.',
 'No test reads back a written table; edits are only checked in memory.',
 [IO+'column_data.hpp',IO+'binary_table.hpp',IO+'ascii_table.hpp',IO+'header.hpp',IO+'fits_reader.hpp'],
 [('column_view::update_value serializes into the table',IO+'column_data.hpp'),('write_to',IO+'binary_table.hpp')],['bytes of the written file'])
p('C04','Creating a card and reading its value back returns what was stored',
 'For every keyword of at most eight characters and every value of a supported type (logical, integers, float, double, complex, text) that fits, creating a card yields an 80-column card with the keyword in columns 1-8 and "= " in columns 9-10, from which keyword and value are read back exactly - floating-point values to the last bit, text up to surrounding blanks - also after the raw card text is parsed into a new card. A comment never changes the value. Content that does not fit, or a longer keyword, is refused with invalid_card.',
 ['inputs'],'All keywords, values of all supported types (including slashes and quotes in text, extreme numbers) and comments.',
 'Tests create half a dozen literal cards, none with a slash or quote in its text or more than six digits.',
 [IO+'card.hpp',IO+'default_card_policy.hpp',IO+'string_conversion_utility.hpp'],
 [('serialize_to_fits_format / parse_to',IO+'default_card_policy.hpp'),('create_card_impl',IO+'card.hpp')],['raw_card, keyword, value'])
p('C05','Card text is accepted, rejected and interpreted by the FITS card rules',
 'A text is accepted as a card if and only if it has at most 80 characters and has "= " in columns 9-10, or a COMMENT/HISTORY/END keyword, or a blank keyword field (eight blanks); everything else is refused with invalid_card. From an accepted value card the keyword, the value (fixed or free format, quoted text with slashes and doubled quotes, E or D exponents, with or without a comment) and the value-with-comment text are returned as written, and reading a value as a type it does not have reports invalid_cast; commentary cards return their text.',
 ['inputs'],'All strings up to and beyond 80 characters, all value notations and placements.',
 'Tests cover eight literal strings.',
 [IO+'card.hpp',IO+'default_card_policy.hpp',IO+'string_conversion_utility.hpp'],
 [('is_card_valid',IO+'default_card_policy.hpp'),('extract_value, value_imp',IO+'default_card_policy.hpp')],['card constructor, value<T>, keyword, value_with_comment'])
p('C06','A card always answers from its latest content',
 'Through any sequence of creating, re-creating, setting the value of, copying and reading a card object, every read returns the value most recently stored, in whatever types it is asked for and however often; a refused operation leaves the card unchanged; copies are independent; equality of cards is equality of their 80-column text; and after every successful operation the text is a valid card with the last keyword.',
 ['histories'],'All operation sequences over one or more card objects, all value types.',
 'The value cache makes behaviour depend on earlier calls; tests issue at most two calls on one card.',
 [IO+'card.hpp'],[('card_cache',IO+'card.hpp'),('set_value',IO+'card.hpp')],['value<T>, raw_card, operator=='])
p('C07','Header queries agree with the cards of the header',
 'For every header block, the number of cards, BITPIX, each NAXISn, the number of dimensions, the element count, keyword membership and the typed value of every keyword (the last card of a repeated one) are those of the cards up to END, and the reader stops right after the END card. Dimensions, keywords or HDU names that do not exist are reported with an exception, and a header without BITPIX or with a value other than 8, 16, 32, -32 and -64 is refused; reading another header into the same object forgets the first; two headers are equal exactly when their cards are; and a written header reads back equal.',
 ['inputs','histories'],'All header blocks (card kinds, counts, positions), all queries in any order.',
 'Tests query one sample header.',
 [IO+'header.hpp',IO+'card.hpp',IO+'bitpix.hpp'],[('read_header, key_index',IO+'header.hpp')],['header query methods'])
p('C08','ASCII tables expose exactly the fields the header describes',
 'For every ASCII table, each cell is the text of its field (TBCOL, TFORM width, NAXIS1) without surrounding blanks, every column view returns that field converted to text, integer or floating point (E and D exponents), iterating a column visits each row once in order, and column metadata (position, name, format, unit, scale, zero) is that of the header. Columns are found by their exact name; unknown columns, text that is not a number, and columns outside their row are reported with an exception, never read out of bounds.',
 ['inputs'],'All column layouts, widths, gaps, rows and cell texts.',
 'Tests read one sample table without gaps.',
 [IO+'ascii_table.hpp',IO+'column_data.hpp',IO+'table_extension.hpp',IO+'string_conversion_utility.hpp'],
 [('set_table_data, populate_column_data',IO+'ascii_table.hpp')],['get_data, get_column, get_column_metadata'])
p('C09','Binary tables decode every field to the value the FITS format defines',
 'For every binary table of supported column types (L X B I J A E D C M P with any repeat count, P and A also followed by their element type or width), each cell is exactly the bytes of its field and each column view returns those bytes decoded big-endian as the scalar or vector type of the column, for every row and column, bit for bit; column metadata is that of the header. Columns are found by their exact name; unknown columns and formats, rows narrower than their columns, and reading a column as a type that needs more bytes than its field has, are reported with an exception, never read out of bounds.',
 ['inputs'],'All column layouts, repeat counts, row counts and byte contents.',
 'Tests decode a few columns of one sample; bytes that equal blanks or line ends do not occur in them.',
 [IO+'binary_table.hpp',IO+'binary_data_converter.hpp',IO+'column_data.hpp'],
 [('set_table_data, column_size',IO+'binary_table.hpp'),('deserialize_to specialisations',IO+'binary_data_converter.hpp')],['get_data, get_column'])
p('C10','Binary serialization is big-endian and the inverse of deserialization',
 'For every value of every supported type (logical, char, 8/16/32-bit integers, 32/64-bit floats, complex, descriptor pairs, and vectors of these), serialization produces its big-endian FITS bytes and deserializing those bytes returns the same value bit for bit, and for every byte string of the right length, deserializing and serializing returns the same bytes (logicals up to T/F); the first n elements of longer data are those of its first bytes, and data that holds fewer elements than asked for is refused.',
 ['inputs'],'All bit patterns (NaNs, infinities, negative zero, blanks) and all vector lengths including zero.',
 'Tests convert one literal per type.',
 [IO+'binary_data_converter.hpp'],[('serialize / deserialize_to',IO+'binary_data_converter.hpp')],['returned strings and values'])
p('C11','Column views stay consistent with their table through any edits',
 'Through any sequence of reads, writes through one or several views of a column (also as different types), iteration, direct cell edits, replacing the whole data, copying tables and assigning tables of the same columns, a view (also one that was kept meanwhile, or a copy of it) always returns what its own table currently holds, a write (of a value, or of another field of a view) changes exactly one cell of its own table, and neither copies nor other columns or rows are affected.',
 ['histories'],'All operation sequences over tables, their copies and their column views.',
 'Tests perform one write followed by one read.',
 [IO+'column_data.hpp',IO+'ascii_table.hpp',IO+'binary_table.hpp',IO+'table_extension.hpp'],
 [('Proxy / update_value',IO+'column_data.hpp'),('cached_columns',IO+'binary_table.hpp')],['get_column, get_data, iteration'])
p('C12','Images hold the file\'s pixels and their statistics are correct',
 'For every image of every BITPIX and shape, in a primary HDU or an image extension, the pixel count, each pixel by row and column, and the serialized image equal the big-endian file data; maximum, minimum, mean, median (the element of rank n/2) and sample standard deviation equal their definitions over all pixels within floating-point rounding. Writing the HDU stores the same bytes. Asking for the pixels as another type than BITPIX announces is reported with an exception, and an image without pixels has mean and deviation 0.',
 ['inputs'],'All BITPIX, shapes (1 to 4 dimensions) and pixel contents with at least one pixel (two for the deviation).',
 'Tests only check the number of pixels of one sample.',
 [IO+'image.hpp',IO+'primary_hdu.hpp',IO+'image_extension.hpp',IO+'bitpix.hpp'],
 [('read_image, operator(), statistics',IO+'image.hpp')],['image accessors'])
p('C13','The FITS stream behaves like a byte file with 2880-byte records',
 'For every sequence of opening, creating, positioning, reading, writing (appending at the position or at an explicit offset), single-byte reads, end tests and record alignment, the stream returns exactly the bytes and positions of a byte array model; a record end is the smallest multiple of 2880 not below the position; reading past the end and opening a missing file are reported as file_reading_exception, creating an impossible file as false.',
 ['histories','fault_sequences'],'All operation sequences, positions and sizes around record boundaries and end of file, missing and unwritable paths.',
 'Tests make one call per method on a 74-byte text file.',
 [IO+'fits_stream.hpp'],[('find_unit_end, read, write',IO+'fits_stream.hpp')],['return values, file bytes'])
p('C14','Changing representation never moves the point',
 'For every point and every choice of units, converting between cartesian, spherical and spherical-equatorial representations (by constructor, factory or conversion function), changing units, and converting back gives the same point in space within rounding; components are returned in their units. The geometry is that of Boost.Geometry with the azimuth as first component "lat" and the polar angle or elevation as second component "lon": spherical x = r sin(lon) cos(lat), y = r sin(lon) sin(lat), z = r cos(lon); spherical-equatorial x = r cos(lon) cos(lat), y = r cos(lon) sin(lat), z = r sin(lon). Setters change only their component, copies are independent, and points in the same units are equal exactly when all their components are.',
 ['inputs','configurations'],'All finite points over many decades of magnitude, poles, axes and origin, all unit combinations, all conversion chains.',
 'Tests convert a few literals, mostly in one unit system.',
 [CO+'rep/cartesian_representation.hpp',CO+'rep/spherical_representation.hpp',CO+'rep/spherical_equatorial_representation.hpp',CO+'rep/base_representation.hpp'],
 [('make_* factories and converting constructors',CO+'rep/cartesian_representation.hpp'),('strategy transforms',CO+'rep/base_representation.hpp')],['get_x/get_lat/get_dist...'])
p('C15','Vector arithmetic on representations follows vector algebra',
 'For all representations in any mix of types and units, dot product, cross product, magnitude, unit vector, sum and mean equal the corresponding operations on the represented vectors, in the units of the result, within rounding: dot is symmetric, cross is antisymmetric and orthogonal to its operands, the unit vector of a vector that is not zero has length 1 and the same direction (its numbers are the direction cosines, in the units of the operand), and the mean is half the sum.',
 ['inputs','configurations'],'All finite vectors, all pairs of representation types and unit systems.',
 'Tests check single literals per operation and few unit mixes.',
 [CO+'arithmetic.hpp',CO+'rep/cartesian_representation.hpp'],[('cross, dot, magnitude, unit_vector, sum, mean',CO+'arithmetic.hpp')],['returned quantities'])
p('C16','Differentials convert, add and scale as velocity vectors',
 'For every differential and unit choice, converting between cartesian, spherical and spherical-equatorial differentials - the latter two also in the variants whose longitude rate is scaled by cos(lat), wherever that cosine is not almost zero - and back, adding two differentials, magnitude and unit vector give the same result as the vector operation on its cartesian components, within rounding; multiplying by a time scales the vector by it (for the angular kinds the radial component) and leaves its direction. Accessors and setters return and change exactly their component in its unit, and copies are independent.',
 ['inputs','configurations'],'All finite components, all unit combinations and conversion chains.',
 'Tests check single literals.',
 [CO+'diff/cartesian_differential.hpp',CO+'diff/spherical_differential.hpp',CO+'diff/spherical_equatorial_differential.hpp',CO+'diff/base_differential.hpp'],
 [('make_*_differential, operator+, operator*',CO+'diff/cartesian_differential.hpp')],['get_dx..., get_dlat...'])
p('C17','Frames keep their data, and separations are true spherical angles',
 'A reference frame or sky point returns the coordinates, distance, proper motion, radial velocity and frame parameters (observation time, equinox, location, pressure and the like) it was given, in any unit; each setter changes only its component, and copies are equal and independent; the angular separation of two directions is the angle between them (0 for equal, 180 degrees for opposite directions, symmetric, never NaN), independent of their distances, within rounding, and the position angle of a sky point is that of spherical trigonometry.',
 ['inputs','configurations'],'All directions (poles, identical, antipodal, nearly equal), distances and units, all frame types.',
 'There are no tests of frames or sky points at all.',
 [CO+'ref_frame/base_frame.hpp',CO+'ref_frame/base_equatorial_frame.hpp',CO+'ref_frame/base_ecliptic_frame.hpp',CO+'ref_frame/icrs.hpp',CO+'ref_frame/cirs.hpp',CO+'coord_sys/galactic.hpp',CO+'coord_sys/supergalactic.hpp',CO+'coord_sys/alt_az.hpp',CO+'sky_point.hpp'],
 [('get_angular_separation',CO+'ref_frame/base_frame.hpp')],['accessors, separations'])
p('C18','Coordinate transformation matrices are rotations that invert each other',
 'For all angles, dates and places, the transformation matrices between horizon, hour-angle, right-ascension, ecliptic and galactic systems preserve lengths and angles of every vector, each pair of inverse matrices cancels (within 1e-6 for the galactic matrices, which are given to seven digits), and building a column vector from two angles, transforming it and extracting coordinates gives the direction that the spherical-astronomy formulas give (near a pole within what the arcsine resolves), with longitude in the range of atan2 and latitude within +-90 degrees, never NaN. The obliquity of the ecliptic follows its polynomial for every date.',
 ['inputs'],'All angles including poles and quadrant boundaries, all dates from 1400 on, all unit choices.',
 'Tests evaluate each matrix at one angle.',
 [CO+'utility/utility.hpp'],[('ha_dec_horizon, ha_dec_ra_dec, ecliptic_ra_dec, galactic_ra_dec, extract_coordinates',CO+'utility/utility.hpp')],['matrix elements, extracted coordinates'])
p('C19','Julian dates and sidereal times are right for every date and time',
 'For every representable date the Julian date is that of 0h of the day in the Gregorian calendar (Julian calendar before the reform of October 1582) and advances by exactly one per day; Greenwich sidereal time lies in [0,24) hours up to rounding, follows the standard formula for every instant including fractions of a second, and advances by 24.0657 hours per day; local sidereal time is Greenwich sidereal time shifted by the longitude (east positive, west negative, 15 degrees per hour), again in [0,24).',
 ['inputs'],'All dates from 1400-01-01 to 9999-12-31 (except the ten dates left out by the reform), all times of day, all longitudes and both directions.',
 'Tests check a handful of dates; month ends, January/February, leap years and the calendar reform are not covered.',
 ['include/boost/astronomy/time/time_conversions.hpp'],[('julian_date, GST, LST',"include/boost/astronomy/time/time_conversions.hpp")],['returned values'])
p('C20','Decimal hours and hours-minutes-seconds describe the same time',
 'For every time of day, splitting a decimal hour into hours, minutes and seconds and recombining gives the same time, with minutes and seconds in [0,60); constructing from hours, minutes and seconds reports those parts and their decimal value; printing shows them.',
 ['inputs'],'All decimal hours in [0,24) and all h:m:s combinations.',
 'Tests print or compare a few literals.',
 ['include/boost/astronomy/time/parser.hpp'],[('decimal_hour',"include/boost/astronomy/time/parser.hpp")],['get(), get_hours/minutes/seconds, operator<<'])
p('C21','Astronomical coordinate types return their angles in the right place and unit',
 'For the horizon, equatorial (hour angle and right ascension), ecliptic and galactic coordinate types and any units, construction, the factory functions (also with mixed or converted units), copies and assignment, getters and setters keep each angle in its own component with its value converted exactly, setters change nothing else, and printing shows the stored values in order.',
 ['inputs','configurations'],'All angles, all unit combinations of the template parameters.',
 'Tests use one literal per type and only equal units in factories.',
 [CO+'coord_sys/horizon_coord.hpp',CO+'coord_sys/equatorial_ha_coord.hpp',CO+'coord_sys/equatorial_ra_coord.hpp',CO+'coord_sys/ecliptic_coord.hpp',CO+'coord_sys/galactic_coord.hpp',CO+'coord_sys/coord_sys.hpp'],
 [('make_*_coord, get_/set_',CO+'coord_sys/horizon_coord.hpp')],['getters, printed text'])
p('C22','Astronomical length units convert consistently',
 'Converting any length between parsec, light year, light day, hour, minute and second, astronomical unit, metre and centimetre uses the standard ratios, converting there and back or through a third unit gives the same length within rounding, and order and ratios of lengths are preserved.',
 ['inputs','configurations'],'All pairs and triples of declared units and all magnitudes.',
 'Tests check individual factors from one unit.',
 ['include/boost/astronomy/units/length.hpp'],[('conversion factors','include/boost/astronomy/units/length.hpp')],['converted quantities'])
p('C23','Damaged FITS input is refused or read in bounds, and always terminates',
 'For every byte sequence offered as a FITS file, opening it in either reading mode - and then querying headers, cells, columns and pixels and writing it out - ends in bounded time either with data taken from the file or with an exception derived from std::exception; it never reads outside of its buffers, crashes, hangs or grows without bound. A file that ends before the END card or before the announced data is refused.',
 ['inputs','fault_sequences'],'All byte strings: random, truncated at any point, and well-formed files with damaged cards, sizes, columns or bytes.',
 'Tests offer only intact sample files.',
 [IO+'fits_reader.hpp',IO+'header.hpp',IO+'card.hpp',IO+'ascii_table.hpp',IO+'binary_table.hpp',IO+'image.hpp',IO+'fits_stream.hpp'],
 [('read_header termination, bounds checks of set_table_data',IO+'header.hpp')],['exceptions, sanitizer reports, termination'])
p('C24','A FITS file is written completely, or the failure is reported',
 'Whenever writing an opened FITS file cannot store every byte - the path cannot be created, is a directory, the device is full, the space ends at any byte, or only the headers of the file were read and not its data - an exception derived from std::exception is thrown; whenever write_to returns normally, the file is complete on disk at that moment and contains nothing of a file that was there before, also when it replaces the file it was read from. A failed write leaves the opened object and other files as they were, and a later write to a good path succeeds.',
 ['fault_sequences','histories','inputs'],'All files, all fault kinds and positions (every byte at which space can end), all sequences of failing and succeeding writes, all earlier contents of the target.',
 'Tests write once to a fresh file in the current directory and inject no fault.',
 [IO+'fits_reader.hpp',IO+'fits_stream.hpp',IO+'default_hdus.hpp'],
 [('fits_io::write_to',IO+'fits_reader.hpp'),('create_file, write',IO+'fits_stream.hpp')],['exception or file bytes'])
if __name__=='__main__':
    for x in P: print(json.dumps(x))
