#!/usr/bin/env python3
"""Writes properties.jsonl (kept in step with MANIFEST.json by mkmanifest.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
D='src/decode.rs';L='src/lib.rs';V='src/version_db.rs';R='src/prepare.rs';T='src/detect.rs';G='src/geometry.rs';I='src/identify/grid.rs'
p('C01','Payload bits decode to exactly the bytes the QR standard assigns to them',
 'For every version and every corrected data bit stream, decoding emits exactly the bytes ISO/IEC 18004 assigns to its numeric, alphanumeric, byte and kanji (Shift-JIS) segments, in order, with ECI designators of 1, 2 or 3 bytes skipped, count indicators of the width of the version class (1-9, 10-26, 27-40), stopping at the 0000 terminator or when fewer than 4 bits remain. A segment whose announced characters need more bits than remain gives DataUnderflow and an unassigned mode indicator gives UnknownDataType. What was decoded before such an error is exactly what was written before it.',
 ['inputs'],'every version 1..40, every data bit stream of the length of a version and level, any number and mix of segments; not specified: streams that end inside a count indicator, digit or character groups beyond the largest value of their group, and ECI designators that start with bits 111',
 'The unit tests decode a handful of symbols with mostly one byte segment; they reach no kanji, no ECI of two or three bytes, few count-width classes, no truncated or mixed streams.',
 [D],[('decode_payload, decode_numeric/alpha/byte/kanji/eci, numeric_tuple, alpha_tuple',D),('CorrectedDataStream::take_bits, bits_remaining',D)],
 observe=['Grid::decode_to','Grid::decode'])
p('C02','Format information: nearest BCH word of the first readable copy decides',
 'For every grid of a valid size, the format word around the top left finder, unmasked with 0x5412, decides error correction level and mask whenever it is within 3 bit errors of one of the 32 valid BCH(15,5) words, and then the metadata are those of that word. A word farther than 3 from all of them is either unreadable or read as one of the 32 valid words. Only if the first copy is unreadable is the second copy (below the top right and beside the bottom left finder) used under the same rule, and if neither is readable the result is FormatEcc. The version reported is (size - 17) / 4 rounded down; where that is not in 1..40 the result is InvalidVersion; the size of version v is 4 v + 17.',
 ['inputs'],'all 2^15 contents of each of the two copies, every grid size',
 'The tests decode symbols with intact or lightly damaged first copies; the 2^30 pairs of copies and the positions of the second copy for every size are not sampled.',
 [D],[('read_format, correct_format, format_syndromes, Version::from_size',D),('berlekamp_massey, poly_eval',D)],
 observe=['Grid::get_raw_data','Grid::decode_to'])
p('C03','Reed-Solomon correction repairs every correctable block and accepts no other',
 'For every block of every version and level, if the received block differs in at most floor(parity/2) bytes from a codeword of the Reed-Solomon code over GF(256)/0x11D with generator roots alpha^0..alpha^(parity-1), the block is corrected to exactly that codeword. Whatever is received, a block is accepted only if after correction all its syndromes are zero, and is rejected with DataEcc otherwise; data are never returned from a rejected block.',
 ['inputs'],'every received block, every error pattern, every block length and parity count of the standard',
 'Tests contain a few damaged pictures; the error patterns (positions, magnitudes, counts up to the bound, in every block shape) are astronomically many and the decoder is algebraic: one wrong term shows up only for special patterns.',
 [D],[('correct_block, block_syndromes, eloc_poly, poly_eval, berlekamp_massey, poly_add',D),('g2p generated field GF256',D)],
 observe=['Grid::decode_to'],hook='decode::verif (block level access)')
p('C04','Codeword bits are read from exactly the data modules, in the standard order',
 'For every version, the raw bit stream of a grid is the sequence of all modules outside the function patterns (finders with separators and format information, timing, alignment patterns, version information), each exactly once, in the two-column zigzag order of ISO/IEC 18004 that starts at the bottom right, goes upwards first and skips the vertical timing column. Its length is the number of such modules, bit k is the colour of the k-th of them, packed most significant bit first, and raw data requested without unmasking are the unmodified colours.',
 ['inputs','configurations'],'every version 1..40 and every grid content',
 'Tests decode few versions, and errors in the placement of a few modules are silently absorbed by error correction.',
 [D,V],[('read_data, reserved_cell, RawData::push, read_bit',D),('alignment pattern coordinates',V)],
 observe=['Grid::get_raw_data'])
p('C05','Unmasking inverts exactly the modules the standard mask pattern selects',
 'For every mask number 0..7 and every module, reading the code for decoding inverts the module if and only if the mask condition of ISO/IEC 18004 with row i and column j holds there: (i+j)%2, i%2, j%3, (i+j)%3, (i/2+j/3)%2, ij%2+ij%3, (ij%2+ij%3)%2, ((i+j)%2+ij%3)%2 equal to 0.',
 ['inputs'],'all 8 masks, all module coordinates of all versions',
 'The unit tests look at a 7x7 corner of the patterns; a wrong condition outside costs few bits, which error correction hides.',
 [D],[('mask_bit, read_bit',D)],observe=['Grid::decode_to'])
p('C06','Codewords are de-interleaved into the blocks of the standard',
 'For every version and error correction level, the raw codewords are split into the number of blocks, data codewords per block and parity codewords per block given by ISO/IEC 18004 (short blocks first, long blocks one data codeword longer), data and parity being interleaved column by column, and the data codewords of the blocks are concatenated in block order to form the data stream, whose length is exactly the data capacity. If any block cannot be corrected the whole decoding fails.',
 ['inputs','configurations'],'all 40 versions x 4 levels, every codeword content',
 'Only a few of the 160 version/level combinations occur in the test pictures, and wrong counts for a combination are invisible until that combination is scanned.',
 [D,V],[('codestream_ecc',D),('VERSION_DATA_BASE',V)],observe=['Grid::decode_to'])
p('C07','Decoding a grid never panics and reads only modules inside it',
 'For every implementation of the grid interface, whatever its size and contents, decoding and raw data extraction terminate with a result or an error: they never panic, never overflow, never index out of range, and ask the grid only for modules with row and column below its size.',
 ['inputs'],'every grid size (0 upwards) and every content, including adversarial ones',
 'Tests use well formed symbols and two erroneous ones; damaged or malicious contents that reach every branch are not enumerable by tests.',
 [D,V,L],[('decode, get_raw, read_format, read_data, codestream_ecc, correct_block, decode_payload and callees',D),('MirroredGrid',L)],
 observe=['Grid::decode','Grid::decode_to','Grid::get_raw_data'])
p('C08','A mirrored symbol decodes like the symbol itself; errors are the original ones',
 'Decoding first reads the grid as it is; only if format information or error correction fail is the transposed grid tried, and if that succeeds its metadata and payload are the result, as if the transposed grid had been given. If both fail, the error of the original orientation is returned. An error in the payload of a correctly read symbol is returned as such.',
 ['inputs'],'every grid and its transpose',
 'One mirrored picture is tested; which error is reported and which orientation wins are not.',
 [D,L],[('decode (inner _decode, fallback)',D),('MirroredGrid',L)],observe=['Grid::decode_to'])
p('C09','Grids and bitmaps built from a function show exactly that function',
 'A grid built from a size and a function answers, for every row y and column x, the value of the function at (x, y), and reports that size. An image prepared from a bitmap function has black exactly at the (x, y) where the function is true and white elsewhere, for every width and height, the function being called once per pixel.',
 ['inputs'],'every size, every function, every coordinate',
 'Tests build three grids of two sizes; bit packing errors at particular coordinates or sizes go unseen.',
 [L,R],[('SimpleGrid::from_func, SimpleGrid::bit',L),('prepare_from_bitmap, without_preparation, BasicImageBuffer',R)],
 observe=['BitGrid::bit','PreparedImage::get_pixel_at'])
p('C10','Binarisation is the documented moving average threshold, for every image',
 'For every greyscale image, preparing it terminates without overflow or panic and makes pixel (x, y) black exactly if its luminance is below 95/200 of the sum, at that pixel, of the two exponential moving averages (window max(width/8,1), one running in each direction of the row, both carried over from row to row with the direction alternating), divided by the window, in integer arithmetic. The result is the same for a pixel function and for an image buffer of the same contents.',
 ['inputs'],'every pixel content, every width up to 2^31, every height',
 'Tests threshold the pictures of the repository and only look whether the codes in them are found.',
 [R],[('PreparedImage::prepare',R),('prepare_from_greyscale, ImageBuffer for image types',R)],
 observe=['PreparedImage::get_pixel_at'])
p('C11','Region fill recolours exactly the connected region, visiting each pixel once',
 'For every image and start pixel, filling a region changes exactly the pixels that are 4-connected to the start through pixels of the source colour, to the target colour, and nothing else. The horizontal runs reported during the fill are disjoint, within the image, and together cover exactly the recoloured pixels, so that the area counted equals the size of the region. It terminates for every image.',
 ['inputs'],'every image size, every colouring, every start pixel, every pair of different colours',
 'Five 3x3 pictures are tested; connectivity through concave, spiral or one pixel wide shapes and image borders is not.',
 [R],[('flood_fill, AreaCounter, repaint_and_apply',R)],observe=['pixels and reported rows'],hook='prepare::verif')
p('C12','Every region keeps one colour and its true size through any query sequence',
 'For every sequence of region queries on any image, a query of a black pixel or of an already numbered region returns the region 4-connected to it: same number for all its pixels, different numbers for different regions held at the same time, and the exact pixel count. At most 251 numbered regions exist at a time; when they run out the least recently used one is turned back to black completely, so a later query renumbers it correctly. Claimed regions (finder, alignment) are reported as claimed, and white pixels are never changed.',
 ['inputs','histories'],'every image and every sequence of queries and claims',
 'One 3x3 picture is tested; eviction needs more than 251 regions and depends on the history of queries.',
 [R],[('get_region, repaint_and_apply',R),('LRU cache of regions',R)],
 state=[('cache','region number -> region','PreparedImage.cache')],observe=['get_region results, pixels'],hook='prepare::verif')
p('C13','The line scanner reports exactly the 1:1:3:1:1 runs',
 'For every line of pixel colours, the scanner reports a candidate exactly at those pixels that are white, end a run and are preceded by five runs of which each is within 3/4 of the average of the four unit runs from 1, 1, 3, 1 and 1 times that average (integer arithmetic). The reported positions are the first pixel of the first run, the first pixel of the middle run and the first pixel of the last run.',
 ['inputs'],'every line of up to 2^60 pixels over all colours',
 'Four short lines are tested; run length ratios at the tolerance limits are not.',
 [T],[('LineScanner::new, advance, test_for_capstone',T)],observe=['LineScanner results'],hook='detect::verif')
p('C14','Corner finders return extremal points of the region',
 'For every sequence of runs fed to them, the first corner finder ends with a run end point of maximal distance from the start, the four-corner finder with run end points (or the start) that are extremal along and across the base line in each of the four directions, and the alignment corner finder with the extremal point across its line; ties keep the earliest point. No overflow happens for images up to 16384 pixels wide and high.',
 ['inputs','histories'],'every sequence of runs (rows) inside an image of at most 2^14 x 2^14 pixels',
 'Two 3x3 shapes are tested.',
 [T,I],[('FirstCornerFinder, AllCornerFinder',T),('LeftMostFinder',I)],observe=['finder results'],hook='detect::verif, grid::verif')
p('C15','Line scans visit every step of the line from one end to the other',
 'For every pair of points with coordinates below 2^30 in magnitude and less than 2^29 apart per axis, the line scan yields max(|dx|,|dy|)+1 points, the first is the start and the last the end; along the dominant axis each step advances by exactly one towards the end, and the other coordinate never is more than one away from the exact line. Counting colour changes along it counts exactly the positions whose colour differs from their predecessor.',
 ['inputs'],'every pair of points in all eight octants, every image',
 'A few lines are tested.',
 [G,I],[('BresenhamScan::new, next',G),('timing_scan',I)],observe=['points yielded, change count'],hook='geometry::verif, grid::verif')
p('C16','Line intersection is the exact intersection, or none for parallel lines',
 'For any two lines given by pairs of points with coordinates up to 2^19 in magnitude, the intersection is absent exactly if the lines are parallel (or degenerate) or the point lies outside the 32 bit range, and otherwise each coordinate is the exact rational intersection truncated towards zero; no overflow happens.',
 ['inputs'],'all quadruples of points with |coordinate| <= 2^19',
 'Two configurations are tested.',
 [G],[('line_intersect',G)],observe=['returned point'],hook='geometry::verif')
p('C17','Perspective maps the square to the given corners and unmap inverts map',
 'In exact arithmetic, whenever a perspective is created for four corners with a positive width and height, it maps (0,0), (w,0), (w,h), (0,h) to exactly these corners wherever the denominators (ratios of the signed areas of corner triangles) do not vanish, mapped points are rounded to a nearest pixel, and unmapping the exact image of any point gives that point back wherever the denominators do not vanish. Creation is refused exactly when twice the signed area of the triangle of the last three corners, times width or height, is below epsilon.',
 ['inputs'],'all corner quadruples, all positive sizes, all points, over the real numbers',
 'No test looks at the transform itself.',
 [G],[('Perspective::create, map, unmap',G)],observe=['coefficients, mapped points'],hook='geometry::verif')
p('C18','Output contract: UTF-8 string or EncodingError, writer failures are IoError',
 'For every symbol, decoding to a string succeeds exactly if decoding to a writer succeeds and the emitted bytes are valid UTF-8, and then the string is exactly those bytes and the metadata are the same; otherwise EncodingError (not UTF-8) or the decoding error is returned. If the writer fails at any write, decoding returns IoError and what the writer accepted before is a prefix of the payload.',
 ['inputs','fault_sequences'],'every payload and every point at which the writer fails',
 'The tests write into vectors that cannot fail and one non UTF-8 payload.',
 [L,D],[('Grid::decode, Grid::decode_to, DeQRError',L),('map_err(IoError) at every write',D)],observe=['Grid::decode','Grid::decode_to'])
p('C19','Detection terminates without panic on every image',
 'For every image of any size and content, preparing it and detecting grids terminates without panicking, overflowing or indexing out of range.',
 ['inputs'],'every image',
 'The tests detect in about twenty pictures.',
 [R,T,I,G],[('detect_grids and everything below it',R)],observe=['PreparedImage::detect_grids'])
p('C20','Undistorted symbols are found and decoded',
 'An axis aligned rendering of a valid symbol with an integral module size of at least 3 pixels and a quiet zone of 4 modules is detected as exactly one grid, whose decoding gives the encoded payload.',
 ['inputs'],'every version, level, mask, payload and module size',
 'The tests detect in about twenty pictures.',
 [R,T,I,G],[('detect_grids, jiggle_perspective, find_alignment_pattern, find_groupings',I)],observe=['PreparedImage::detect_grids','Grid::decode'])
p('C21','Finder detection reports exactly the finder patterns, each once',
 'For every image, finder detection reports, in the order of the line scan, exactly the places where a line holds five runs in the proportion 1:1:3:1:1 whose first and last run lie in one connected dark region (the ring) not claimed before, the middle run in another unclaimed dark region (the stone) with a share of more than 10 and less than 70 percent of the ring, except that a place without a local perspective is dropped. This includes patterns that touch the right edge. The corners reported are pixels of the ring that are extremal along and across the line from the place to the farthest pixel of the ring, and the centre is the image of (3.5, 3.5) under the perspective of the corners. The rings found are claimed, each once; nothing else changes between white and dark, and the numbering of regions stays intact.',
 ['inputs','histories'],'every image up to 16384 x 16384 in every state that earlier queries and claims can leave behind',
 'Tests look for the number of finders in three pictures; overlapping, bridged, edge and exhausted-number situations are not sampled.',
 [T,R],[('capstones_from_image, is_capstone, create_capstone',T),('PreparedImage::get_region, repaint_and_apply',R)],observe=['CapStone list, pixel colours'],hook='detect::verif, prepare::verif')
p('C22','Grid location: orientation, size, alignment search and module reading',
 'For every image and every three finders, locating the grid puts the finders in the order bottom left, top left, top right by the side of the diagonal the middle one lies on, turns each so that its first corner is the one farthest to the left of that diagonal, and takes the size from the colour changes along the two timing patterns between the finders (the larger count; 4v+2 to 4v+5 changes mean version v, none means no symbol). For sizes above 21 it searches outwards on a square spiral from the point where the outer edges of the two outer finders meet, takes the first unclaimed dark region of half to twice the estimated size of a module, claims exactly that region and uses its pixel farthest to the left of the diagonal as fourth corner; it gives up when the spiral meets a claimed region first or covers 100 such areas. Versions above 40 are rejected. The result has that size and a refined perspective (C23) through the four corners, or is None exactly when one of the steps has no answer; nothing but the claim changes in the image, regions stay intact. Reading module (x, y) of the located grid tells whether the pixel its centre is mapped to is dark.',
 ['inputs','histories'],'every image up to 16384 x 16384 in every state that earlier queries and claims can leave behind, every three finders with centres in the image and corners within 8192 of the origin whose mapped points are in that range too',
 'Tests locate the grids of three pictures; other orders and orientations of the finders, sizes, claimed or ambiguous alignment regions are not sampled, and errors in most steps still decode through error correction.',
 [I],[('SkewedGridLocation::from_group, rotate_capstone, measure_timing_pattern, timing_scan, find_alignment_pattern, LeftMostFinder',I),('RefGridImage::size, bit',I)],observe=['grid size, perspective, pixel colours, modules read'],hook='grid::verif')
p('C23','Perspective refinement never loses agreement with the function patterns',
 'For every image, perspective and size, the score of a perspective is the agreement of nine sample points per module with the function patterns of ISO/IEC 18004 for that size (timing patterns, three finders, every alignment pattern of the version exactly once, dark modules +1 per dark and -1 per white sample, light modules the other way round, samples outside the image 0). Refining a perspective never lowers this score and moves no coefficient by more than 4 percent; the perspective of a located grid is the refinement of the one through its four corners, and missing exactly when that does not exist.',
 ['inputs','configurations'],'every image, every perspective whose mapped points exist, sizes of all versions 0 to 40',
 'Tests decode pictures whose initial perspective is good enough already: a wrong sign, position or pattern in the score goes unnoticed there and costs symbols elsewhere.',
 [I],[('fitness_all, fitness_apat, fitness_ring, fitness_cell, fitness_capstone',I),('jiggle_perspective, setup_perspective, version_from_grid_size',I)],observe=['Perspective coefficients, score'],hook='grid::verif')
p('C24','Finders are grouped by their own perspectives, the most even partners first',
 'For every list of finders, the candidate partners of a finder are exactly the pairs of two other finders of which, measured in modules of its own perspective from its centre, the first lies above or below it (offset to the side less than a fifth of the offset ahead) and the second beside it (the other way round), and whose distances differ by less than a quarter of the larger one; each pair is listed once, the pairs with the smallest relative difference first. Groups are formed by going through the finders in the order given, leaving out those that are in an earlier group, and through the candidates of each in that order, leaving out pairs with a finder that is in an earlier group: a group (first partner, finder, second partner) is accepted exactly if locating a grid (C22) with it succeeds on a copy of the image. Forming groups changes nothing in the image, neither its pixels nor what is known of its regions.',
 ['inputs','histories'],'every list of finders and every image up to 16384 x 16384 in every state that earlier queries and claims can leave behind, with the mapped points in the ranges of C22',
 'The tests detect symbols in about twenty pictures, most with one symbol and finders at clean right angles; the limits, the order of candidates, several symbols with shared candidates and the state of the image after failed attempts are not sampled.',
 [I,R],[('find_possible_neighbors, find_and_rank_possible_neighbors','src/identify/match_capstones.rs'),('PreparedImage::find_groupings, PreparedImage::clone',R)],state=[('used finders','set of indices','find_groupings used_capstones')],observe=['pairs, groups, pixel colours'],hook='prepare::verif')
p('C25','Detection gives one grid per group that can be located, with its bounds',
 'For every image, detecting grids searches the finders (C21), groups them (C24) and locates each group (C22) in that order on the image itself, so that regions claimed for one grid are seen by the next; groups that cannot be located on it any more are left out, and every other group gives exactly one grid, in order. Each grid has the size and perspective of its location, reads its modules from the image, and has as bounds the images of the module corners (0,0), (n+1,0), (n+1,n+1), (0,n+1) under its perspective, where n is its size.',
 ['inputs','histories'],'every image up to 16384 x 16384 in every state that earlier queries and claims can leave behind, with the mapped points in the ranges of C22',
 'The tests look at the number of grids and the decoded text in about twenty pictures; no test looks at the bounds or at images in which groups compete for a region.',
 [I,R],[('PreparedImage::detect_grids',R),('SkewedGridLocation::into_grid_image',I)],observe=['grids: size, modules, bounds'],hook='prepare::verif')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
