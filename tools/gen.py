"""Writes properties.jsonl and MANIFEST.json from the property texts below and the jobs that
are registered in jobs.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import jobs as J        # noqa

BV = 'jpylyzer/boxvalidator.py'
BC = 'jpylyzer/byteconv.py'
EP = 'jpylyzer/etpatch.py'
JP = 'jpylyzer/jpylyzer.py'
MX = 'jpylyzer/mix.py'
TESTS = ('The unit tests run the validator on about 50 sample files and compare the overall '
         'verdict; ')
P = []


def p(pid, title, statement, over, text, why, files, mech):
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over if isinstance(over, list) else [over], text=text),
        why_tests_cant=why,
        anchors=dict(files=files if isinstance(files, list) else [files],
                     mechanism=[dict(name=n, where=w) for n, w in mech])))


p('C01', 'A file is reported valid exactly when every test in its report passed',
  'The reported verdict is True if and only if every single test result in the complete (verbose) '
  'tree of tests is True, at every nesting depth: one failing test anywhere (in any box, tile-part '
  'or marker segment) makes the file invalid, and nothing else does. The verdict of a nested '
  'structure is derived from its own tests in the same way.',
  'inputs', 'every tree of test results, and every small file of any of the four formats',
  TESTS + 'they cannot show that a failing test at an arbitrary place is never lost.',
  [BV, EP], [('verdict aggregation', BV + ' _isValid, validate'),
             ('test recording', BV + ' testFor')])
p('C02', 'Verdict and properties do not depend on the output options',
  'For the same file and format, switching verbose output, packet marker reporting or extraction '
  'of null-terminated XML on or off never changes the verdict. Terse output contains exactly the '
  'tests that the verbose output reports as failed; packet marker reporting only adds packet '
  'marker properties and changes no test; verbose output changes no property.',
  ['inputs', 'configurations'], 'every content of the boxes and codestreams within the bounds, '
  'every pair of option settings',
  'The tests use one option combination per file and never compare two runs.',
  [BV, JP], [('terse/verbose', BV + ' testFor'), ('packet marker flag', BV + ' _addPLM.. and '
             'validate_contiguousCodestreamBox / validate_tilePart'),
             ('nullxml flag', BV + ' validate_xmlBox, validate_uuidBox')])
p('C03', 'No content makes the validator fail with an internal error',
  'Whatever bytes a file contains, validation in any of the four formats returns a verdict, tests '
  'and properties; it never aborts with an internal exception, including for truncated fields, '
  'unreadable lengths, unknown boxes and markers, zero or huge values and missing boxes. A file '
  'that cannot be understood is reported as not valid.',
  'inputs', 'every byte string within the bounds, in the four formats and all options',
  TESTS + 'malformed samples cover a handful of the ways a file can be broken.',
  [BV, BC, EP], [('unreadable values', BC + ' bytesTo..'), ('parse guards', BV)])
p('C04', 'Validation always terminates; every parsing loop moves forward',
  'The position in a box sequence, in the main header, between tile-parts and inside packet length '
  'lists strictly increases, so that the number of boxes, segments, tile-parts and packets that '
  'are examined is bounded by the size of the file; loops over entries end after at most as many '
  'rounds as an 8- or 16-bit field announces. No length field (zero, small, huge, extended or '
  'unreadable) makes validation loop or repeat work without end.',
  'inputs', 'every value of the length fields within the bounds',
  'A test can only show that the sampled files terminate.',
  BV, [('box loop', BV + ' validate_JP2, superboxes'), ('marker loops', BV +
       ' validate_contiguousCodestreamBox, validate_tilePart'), ('packet lengths', BV +
       ' validate_plt, validate_plm')])
p('C05', 'Boxes are delimited by their length fields and handled by their type',
  'A box starts at the end of the previous one and has an 8-byte header; a length of 1 means that '
  'an 8-byte length follows (16-byte header), a length of 0 means that the box runs to the end of '
  'the file or superbox, any other length is the size of the whole box. Exactly the bytes of the '
  'box after its header are validated and reported under the element for that box type; boxes of '
  'unknown type are skipped with a warning and neither change the verdict nor the rest of the '
  'report.',
  'inputs', 'every box header and box sequence within the bounds',
  'The samples use a few box layouts; length 0, extended lengths, truncated headers and unknown '
  'types are hardly met.',
  BV, [('box header', BV + ' _getBox'), ('dispatch', BV + ' typeMap, __init__'),
       ('unknown boxes', BV + ' validate_unknownBox')])
p('C06', 'Top-level file structure rules are decided from the boxes that are present',
  'A JP2/JPH file passes the structure tests exactly when: signature, file type, JP2 header and '
  'codestream box are all present, the signature box is first, the file type box second, the JP2 '
  'header box lies after these and before the first codestream box, there is one signature, one '
  'file type and one JP2 header box, and an intellectual property box is present when the image '
  'header announces it. Each of those tests is reported separately with its own result.',
  'inputs', 'every sequence of top-level boxes within the bounds',
  TESTS + 'few of the possible orders and combinations occur.',
  BV, [('structure tests', BV + ' validate_JP2')])
p('C07', 'JP2 header structure rules are decided from the boxes it contains',
  'The JP2 header passes exactly when: an image header box is present and first, a colour '
  'specification box is present (in JPH: unless the colour space is flagged unknown, and without '
  'one, no channel may be of type colour), a bits-per-component box is present when the bit depth '
  'is flagged as variable, no more than one of each of the single boxes occurs, colour '
  'specification boxes are contiguous and palette and component mapping only occur together. '
  'Results of all sub-boxes are reported below the header.',
  'inputs', 'every sequence of sub-boxes within the bounds and every relevant field value',
  TESTS + 'few of the possible orders and combinations occur.',
  BV, [('structure tests', BV + ' validate_jp2HeaderBox')])
p('C08', 'Header fields are checked against the codestream; compression ratio is right',
  'Height, width, number of components, sign and bit depth in the JP2 header (or its '
  'bits-per-component box if the depth is variable) are each reported consistent exactly when they '
  'agree with the values in the SIZ segment of the codestream. The reported compression ratio is '
  'uncompressed size (sum of component depths in bytes times width times height) divided by the '
  'size of the file, rounded to two decimals, for files and for raw codestreams.',
  'inputs', 'every combination of values of the compared fields, file sizes within the bounds',
  'The samples contain one or two mismatches; arithmetic over 32-bit fields cannot be sampled.',
  BV, [('consistency tests and ratio', BV + ' validate_JP2, validate_contiguousCodestreamBox, '
       '_calculateCompressionRatio, _calculateImageSize')])
p('C09', 'Signature, file type, image header and bit depth boxes are decoded right',
  'Every field of these boxes is reported with the value that is in the file, and each test on '
  'these boxes (signature bytes, brand, minor version, compatibility list, height, width, '
  'components, sign and depth, compression type, colourspace unknown and IPR flags, box lengths) '
  'passes exactly when the field satisfies the rule of the standard for the chosen format.',
  'inputs', 'every content of these boxes up to the stated sizes, in both file formats',
  TESTS + 'most field values are never out of range in any sample.',
  [BV, BC], [('field decoding and tests', BV + ' validate_signatureBox, validate_fileTypeBox, '
             'validate_imageHeaderBox, validate_bitsPerComponentBox')])
p('C10', 'Colour specification boxes are decoded and tested right for every method',
  'Method, precedence, approximation and the method-specific fields are reported with the values '
  'in the file, and each test passes exactly when the value is allowed in the chosen format '
  '(enumerated colour spaces, embedded ICC profiles, parameterised colour spaces). For ICC methods '
  'the tests on profile size and class follow from the profile itself.',
  'inputs', 'every content of the box up to the stated sizes, in both file formats',
  TESTS + 'vendor, parameterised and invalid methods hardly occur.',
  [BV, BC], [('field decoding and tests', BV + ' validate_colourSpecificationBox')])
p('C11', 'ICC profile header and description are extracted faithfully',
  'Every header field of an embedded ICC profile (size, version, class, colour space, connection '
  'space, date, platform, flags, rendering intent, illuminant, creator, ID), its tag list and its '
  'description are reported with the values found at their positions in the profile.',
  'inputs', 'every profile within the bounds (header arbitrary, few tags)',
  'Only three or four real-world profiles occur in the samples.',
  [BV, BC], [('ICC decoding', BV + ' validate_icc')])
p('C12', 'Palette, component mapping and channel definition boxes are decoded right',
  'Palette entries are read in file order with the width of their own column, mappings and channel '
  'definitions are read entry by entry; counts, sign, depth, types and associations are reported '
  'as stored. Each test on these boxes passes exactly when the value is in the range that the '
  'standard allows and the box length fits the number of entries.',
  'inputs', 'every content of the boxes with few columns/entries/channels',
  'One palette sample exists, all of whose columns have the same width.',
  [BV, BC], [('field decoding and tests', BV + ' validate_paletteBox, '
             'validate_componentMappingBox, validate_channelDefinitionBox')])
p('C13', 'Resolution boxes report the resolution that their six fields give',
  'A resolution box is valid only if it contains at least one and no more than one of each of the '
  'capture and display boxes. For each of them, the six fields are reported as stored, must be '
  'within their ranges, and the resolutions in pixels per metre and per inch equal '
  '(numerator / denominator) * 10^exponent (and that times 0.0254), rounded to two decimals, for '
  'the vertical and the horizontal direction separately.',
  'inputs', 'every value of the six fields; every sequence of few sub-boxes',
  'One sample contains a resolution box; nothing checks the computed values.',
  [BV, BC], [('decoding', BV + ' validate_resolutionBox, validate_captureResolutionBox, '
             'validate_displayResolutionBox')])
p('C14', 'Metadata boxes (UUID, UUID info, XML) are decoded and tested right',
  'UUIDs are reported in canonical form, UUID lists with all their complete entries and a count '
  'that is tested against the box length, URL boxes with version, flag and location, and a UUID '
  'info box must contain exactly one list and one URL box. XML boxes are valid exactly if their '
  'content is well-formed XML, which is then included in the properties; recognised XML in UUID '
  'boxes is included as well.',
  'inputs', 'every content of the boxes up to the stated sizes, with an arbitrary answer of the '
  'XML parser',
  'UUID list and URL boxes occur in no sample.',
  [BV, BC], [('decoding', BV + ' validate_xmlBox, validate_uuidBox, validate_uuidInfoBox, '
             'validate_uuidListBox, validate_urlBox')])
p('C15', 'The codestream main header is read segment by segment up to the first tile-part',
  'Main header segments are delimited by their length fields; each is reported under its own '
  'element exactly once and in file order. The main header tests (starts with SOC, has SIZ '
  'directly after it, has COD and QCD, has CAP exactly when announced, at most one COC/QCC per '
  'component) pass exactly when the sequence of segments satisfies them; unknown segments are '
  'skipped without changing anything.',
  'inputs', 'every sequence of few main header segments, including unknown and truncated ones',
  TESTS + 'few orders and combinations of segments occur.',
  BV, [('main header loop', BV + ' validate_contiguousCodestreamBox, _getMarkerSegment')])
p('C16', 'All tile-parts are found, and missing or extra tile-parts fail the file',
  'Tile-parts follow each other at the distance given by their length field (zero: up to the end '
  'of the codestream); the tests for number of tiles and of tile-parts pass exactly when each tile '
  'implied by the image and tile size is present and has as many tile-parts as it announces, and '
  'the end-of-codestream test exactly when the codestream ends with EOC. Inside a tile-part, '
  'COD/COC/QCD/QCC/RGN are allowed only in the first tile-part of a tile, a component occurs at '
  'most once in COC/QCC, SOD is present and the next tile-part or EOC is where the length says.',
  'inputs', 'every sequence of few tile-parts with arbitrary lengths, indices and segments',
  TESTS + 'truncated images are sampled at a few points only.',
  BV, [('tile-part loop', BV + ' validate_contiguousCodestreamBox, validate_tilePart'),
       ('tile accounting', BV + ' tilePartsPerTile bookkeeping')])
p('C17', 'The image and tile size segment (SIZ) is decoded and tested right',
  'Every field of SIZ (capability, dimensions, offsets, tile size, number of tiles, components '
  'with sign, depth and sub-sampling) is reported as stored or as derived by the standard; each '
  'range test passes exactly when the value is within its range in the chosen format, and the '
  'length test exactly when the segment length fits the number of components.',
  'inputs', 'every content of the segment for few components; every capability value',
  TESTS + 'all valid samples have a plain SIZ segment.',
  [BV, BC], [('decoding', BV + ' validate_siz')])
p('C18', 'Coding style segments (COD, COC) are decoded and tested right',
  'Every field of COD and COC (style bits, progression order, layers, component transform, '
  'levels, code block size and style, transformation, precinct sizes per resolution level) is '
  'reported as stored; each test passes exactly when the value is allowed in the chosen format. '
  'The component index has two bytes exactly when the image has more than 256 components.',
  'inputs', 'every content of the segments for few levels',
  TESTS + 'COC and most styles are hardly met.',
  [BV, BC], [('decoding', BV + ' validate_cod, validate_coc')])
p('C19', 'Quantization segments (QCD, QCC) are decoded and tested right',
  'Quantization style, guard bits and per-level exponent (and mantissa) values are reported as '
  'stored, with the number of values implied by the style and the segment length; each test '
  'passes exactly when the value is allowed. The component index has two bytes exactly when '
  'the image has more than 256 components.',
  'inputs', 'every content of the segments for few levels',
  TESTS + 'QCC and the derived style are hardly met.',
  [BV, BC], [('decoding', BV + ' validate_qcd, validate_qcc')])
p('C20', 'Progression change, registration and region segments are decoded right',
  'POC, CRG and RGN fields are reported as stored, one group per progression or component; each '
  'test passes exactly when the value is within the range of the standard (the resolution, layer '
  'and component ends greater than their starts where required). Component indices have two bytes '
  'exactly when the image has more than 256 components.',
  'inputs', 'every content of the segments for few progressions/components',
  TESTS + 'these segments occur in one or two samples, always valid.',
  [BV, BC], [('decoding', BV + ' validate_poc, validate_crg, validate_rgn')])
p('C21', 'Comment segments are decoded by their registration value',
  'The registration value is reported and tested; Latin comments are reported as text without '
  'control characters, binary comments as the text or representation the documentation gives, and '
  'a comment of a registration that cannot be interpreted is never misreported.',
  'inputs', 'every content of the segment for short comments',
  TESTS + 'comments in the samples are plain ASCII.',
  [BV, BC], [('decoding', BV + ' validate_com')])
p('C22', 'Capability and profile segments (CAP, PRF, CPF) are decoded and tested right',
  'The capability bits and the per-part values of CAP are reported one by one with the meaning '
  'given by the standard and each test passes exactly when the value is allowed; the profile '
  'numbers of PRF and CPF are the little-endian combination of all 16-bit entries, and the last '
  'entry must not be zero.',
  'inputs', 'every content of the segments for few parts/entries',
  TESTS + 'only a handful of HTJ2K samples exist, none with PRF or CPF.',
  [BV, BC], [('decoding', BV + ' validate_cap, validate_prf, validate_cpf')])
p('C23', 'Tile-part headers and packet length segments are decoded and tested right',
  'Tile index, tile-part length, tile-part number and count are reported as stored and their tests '
  'pass exactly when the values are allowed (length 0 or at least 14, number below count). Packet '
  'length segments report every packet length, assembled from all its 7-bit groups.',
  'inputs', 'every content of the segments up to the stated sizes',
  TESTS + 'packet lengths of more than two bytes occur in no sample.',
  [BV, BC], [('decoding', BV + ' validate_startOfTile, validate_plt, validate_plm')])
p('C24', 'Byte conversions are exact and total',
  'Reading an unsigned or signed integer of 1, 2, 4 or 8 bytes gives its big-endian value, and '
  '-9999 for any other length; text conversion yields the decoded text without control characters, '
  'or an empty string if it cannot be decoded; hexadecimal conversion gives two digits per byte. '
  'None of them ever fails.',
  'inputs', 'every byte string up to the stated length',
  'The unit tests sample a few values per conversion.',
  BC, [('conversions', BC)])
p('C25', 'The readable report is a faithful, legal XML rendering of the raw results',
  'Making results human readable replaces each raw value by its description if the property has '
  'one and by its plain text otherwise, keeping every element, its order and its name; raw values '
  'without a description stay visible. The resulting text contains no characters that XML forbids.',
  'inputs', 'every raw value of every property, every small tree',
  'Tests look at the verdict only; illegal characters occur in no sample.',
  [EP, JP], [('remapping', EP + ' makeHumanReadable'), ('tables', JP +
             ' generatePropertiesRemapTable')])
p('C26', 'MIX output restates the extracted properties without distortion',
  'The MIX record of a valid file gives width, height, components, bit depths, colour space, '
  'compression ratio, resolution, tile size, layers and levels equal to the extracted properties '
  '(resolution as an exact rational number within rounding), in the version that was asked for. '
  'Producing it never fails for a valid file.',
  ['inputs', 'configurations'], 'every combination of property values within the bounds, both MIX '
  'versions',
  'Two samples are converted, without comparing values.',
  [MX, JP], [('MIX', MX + ' Mix.generateMix')])
p('C27', 'Analysing a file always returns one complete result with an honest status',
  'Analysing any existing readable file returns an element with file information, status, verdict '
  '(labelled with the format), tests, properties, warnings (and the extension when MIX was asked '
  'for). If anything fails while validating, success is False, a failure message is given and the '
  'verdict is False; otherwise success is True and the verdict is the one of the validator.',
  ['inputs', 'fault_sequences'], 'every outcome of validation (verdict, or an exception of any '
  'kind), every option combination',
  'Tests never inject failures.',
  [JP], [('result assembly', JP + ' checkOneFile')])
p('C28', 'Command line options and paths reach the analysis unchanged',
  'Each command line option sets exactly the setting it documents, unsupported formats are '
  'rejected, MIX is ignored for raw codestreams. Every existing file that is named, matched by a '
  'wildcard or (when recursing) found below a named directory is analysed, exactly once for each '
  'time that it is named, in order; the program fails when there is nothing to analyse.',
  ['inputs', 'configurations'], 'every combination of options; every small list of paths and '
  'directory tree',
  'Tests call the analysis function directly and never the command line.',
  [JP], [('option forwarding', JP + ' main, parseCommandLine'), ('file selection', JP +
         ' findFiles, checkFiles')])
p('C29', 'Whole-program XML is parseable for every report',
  'The serialised and pretty-printed output of any run parses as XML and carries exactly the '
  'reported tree.',
  'inputs', 'every report tree',
  'Output text is never parsed back by the tests.',
  JP, [('writing', JP + ' writeElement, checkFiles')])

p('C30', 'The result for a file depends on that file and the options alone',
  'Analysing the same content with the same options gives the same verdict, tests, properties and '
  'warnings, whatever was analysed before (another format, a broken file, an analysis that failed '
  'part-way, the same path with other content), in one run of the program as well as through the '
  'functions.',
  ['histories', 'inputs'], 'every earlier file within the bounds, every failure point of an earlier '
  'analysis, every order of options',
  'Each test analyses files with one set of options and never compares results across histories.',
  [JP, BV], [('validator state', BV + ' BoxValidator.__init__'), ('runs', JP + ' checkFiles')])

NA = {
    'C29': 'serialisation and pretty-printing are done by the standard library (ElementTree and '
           'the expat parser behind minidom, C code); encoding them is out of reach. What jpylyzer '
           'itself contributes - that no text contains characters XML forbids - is decided in C25 '
           'and, for file names, in C27.',
}
TODO = 'not built yet'


def main():
    ids = [x['id'] for x in P]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks = []
    na = []
    for i in ids:
        if i in J.J:
            checks.append(dict(
                property=i,
                quick_cmd='python3-vt check.py %s --tier quick' % i,
                thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                evidence_file='evidence/%s.json' % i,
                technique='bounded symbolic execution of the real Python source, obligations '
                          'decided by z3',
                level='model_checking',
                level_note='All inputs within the bounds listed in the evidence, decided by SMT; '
                           'trusts z3, the instrumenting executor and its models of Python '
                           'built-ins (cross-checked by replaying a witness of each path on '
                           'CPython), and the reference in /verif/spec written from the standard '
                           'and the documentation. Counterexamples are replayed on the real code '
                           'before they are reported.'))
        else:
            na.append(dict(property=i, reason=NA.get(i, TODO)))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', [x['property'] for x in na], 'not')
    for x in P:
        if len(x['title']) > 80: print('LONG', x['title'])


if __name__ == '__main__':
    main()
