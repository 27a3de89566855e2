# -*- coding: utf-8 -*-
'''The properties: single source of properties.jsonl and MANIFEST.json.'''
TRUST = ('Trusts the PDF writer and the docx reader of /verif/vt, PyMuPDF as the PDF parser, and the sampled inputs: held on everything '
         'explored, not a proof.')
PROPS = [
 dict(id='C01', title='All text is converted, once, in reading order',
  statement='Converting a page whose text runs left to right (or, for vertical text, bottom to top) puts every printed character into the docx '
            'exactly once: nothing lost, doubled or changed, XML-special, accented and CJK characters included, on pages with paragraphs, tables and pictures alike. '
            'On a page of paragraphs one below the other (which does not look like two columns) the text comes in reading order (lines top to bottom, characters left to right), and '
            'words separated by blanks or by the end of a line (without hyphen) stay separated.',
  over=['inputs'], quant='every page made of non-overlapping, un-rotated lines of text in any fonts, sizes, leading and alignment',
  why='The tests convert 23 sample files and compare layout similarity with a threshold; they never look at every character, and a lost or doubled span in a page unlike the samples goes unnoticed.',
  files=['pdf2docx/page/Blocks.py', 'pdf2docx/text/Lines.py', 'pdf2docx/text/Line.py', 'pdf2docx/text/TextSpan.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/page/Layout.py', 'pdf2docx/table/TablesConstructor.py'],
  mech=[('clean_up/join of lines', 'Lines.join, Blocks.join_horizontally/split_back'), ('moving blocks into tables', 'Blocks.assign_to_tables, Cell.assign_blocks'), ('span splitting', 'TextSpan.split'), ('runs', 'TextSpan.make_docx')],
  observe=['the docx written by Converter.convert()'],
  tech='runtime monitor: conservation/ordering oracle over docx read back, generated and stress pages', note='Every character of generated pages is tracked from PDF to docx. ' + TRUST),
 dict(id='C07', title='Tables without borders keep rows, columns and places',
  statement='A grid of texts and pictures without borders (columns aligned left, right or centred, at least 15 points apart; empty cells, texts of several lines or across several columns, shaded rows, rules '
            'between rows) comes out where the PDF has it: every line and picture keeps its place horizontally and vertically within 4 points, nothing is lost or doubled, also between the paragraphs around it. '
            'If each cell of the grid holds one line or a picture, texts in different columns land in different cells of a table. '
            'Borders are shown only where the page has a rule in this column or the next one, with its width and colour, and cells are shaded only where it is shaded. In a grid of three or more columns without empty cells, rules between rows and the '
            'backgrounds of rows or of some cells of a row reappear in every column they extend over, also with gaps between the backgrounds.',
  over=['inputs'], quant='every page of grids and paragraphs of any fonts, sizes, alignments and numbers of rows and columns',
  why='The sample tests compare stored tables of few files; how text without borders is cut into rows and columns depends on the distances of every line to all others.',
  files=['pdf2docx/table/TablesConstructor.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/table/Border.py', 'pdf2docx/table/TableStructure.py', 'pdf2docx/text/Lines.py', 'pdf2docx/table/Cell.py', 'pdf2docx/common/Collection.py', 'pdf2docx/shape/Shapes.py'],
  mech=[('finding stream tables', 'Blocks.collect_stream_lines, TablesConstructor.stream_tables'), ('borders between cells', 'TablesConstructor._inner_borders, Borders.finalize'), ('explicit rules and backgrounds', 'Border.finalize_by_stroke, Shapes.assign_to_tables, Cell.assign_shapes, TableStructure'), ('text of several lines in a row', 'Lines.is_flow_layout, Blocks.split_back, tab stops')],
  observe=['paragraphs, tables and pictures of the docx, laid out by a simulator'],
  tech='runtime monitor: docx laid out by an independent simulator, its lines, borders and shaded cells compared with what was drawn', note='Columns closer together are joined by MuPDF already. ' + TRUST),
 dict(id='C21', title='The command line does what the API does',
  statement='"pdf2docx convert", "pdf2docx table" and "pdf2docx debug" give the same docx, tables and files as Converter.convert(), extract_tables() and debug_page() with the same page selection and '
            'settings: --start, --end (exclusive), --pages (one number, a list or a tuple), --zero_based_index=False for all of them, --multi_processing, any other setting, the docx named after the PDF if '
            'omitted. Tables are printed one by line, as JSON. Errors (no such file, no PDF, pages out of range, unknown command) end with a non-zero exit status and without docx.',
  over=['inputs', 'configurations'], quant='every PDF, page selection, combination and spelling of options',
  why='No test starts the command line.',
  files=['pdf2docx/main.py', 'pdf2docx/converter.py'],
  mech=[('options', 'PDF2DOCX.convert/debug/table (Fire)')],
  observe=['exit status, standard output and files of real processes'],
  tech='runtime monitor: differential oracle, processes against API', note='The entry point of the package is started through vt/cli.py, which only adds the aliases this sandbox needs. ' + TRUST),
 dict(id='C22', title='Debug mode shows the layout and changes nothing',
  statement='debug_page(i) writes the same docx as convert(pages=[i]) with the same settings, a layout file equal to the stored layout of that page (and of no other), and a readable PDF with one page of the '
            'size of the PDF page for each stage (source paths, source text, shapes, final layout), on whose last page every line and table cell of the layout is drawn at its place. It can be called repeatedly, '
            'before and after other conversions, without any effect on them or on the dictionary of settings.',
  over=['inputs', 'histories'], quant='every page, settings and history of calls with one Converter',
  why='No test uses the debug mode.',
  files=['pdf2docx/converter.py', 'pdf2docx/common/share.py', 'pdf2docx/page/Page.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/shape/Paths.py', 'pdf2docx/shape/Shapes.py'],
  mech=[('plotting', 'share.debug_plot, plot() of all elements'), ('settings', 'Converter.debug_page')],
  observe=['docx, layout file and drawing of debug_page(); settings of the caller; later conversions'],
  tech='runtime monitor: differential oracle (with/without debugging), drawing read back', note=TRUST),
 dict(id='C26', title='Every documented setting acts as documented',
  statement='Each threshold in the list of configuration parameters decides what its description says: on a page where the quantity it is compared with is known, values clearly below and clearly above that quantity give '
            'the two documented outcomes (border recognised or not, pictures floating or in line, lines dropped, joined, separated or broken, paragraphs aligned, fills of one colour merged, drawings turned into pictures of the given resolution). '
            'Giving the documented default explicitly, or a name which is no setting, changes nothing; a conversion neither changes the dictionary it is given nor lets its settings reach later conversions, by the same Converter or another.',
  over=['inputs', 'configurations', 'histories'], quant='every setting and value, and every page with the quantity it applies to',
  why='The tests run with the default settings only (one sets two thresholds); none compares two values of a setting.',
  files=['pdf2docx/page/Page.py', 'pdf2docx/page/Layout.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/text/Lines.py', 'pdf2docx/shape/Shapes.py', 'pdf2docx/shape/Paths.py',
         'pdf2docx/table/TablesConstructor.py', 'pdf2docx/table/TableStructure.py', 'pdf2docx/converter.py'],
  mech=[('defaults', 'Page.init_settings'), ('handing over', 'Page.parse, Layout.parse'), ('thresholds', 'the users of each setting')],
  observe=['the docx with values of a setting on either side of a known quantity; the dictionary of the caller'],
  tech='runtime monitor: differential oracle over values of a setting, with a known quantity between them', note='Values close to the quantity are left out, since descriptions do not say how distances are measured '
       '(connected_border_tolerance acts up to twice its value). page_margin_factor_*: C10; extract_stream_table: C24; multi_processing: C12; shape_merging_threshold: only its default. ' + TRUST),
 dict(id='C18', title='How a page is encoded makes no difference',
  statement='Two PDF files which look the same give the same docx, however they are written: page rotation with turned content, origin and size of the media box around the crop box, unit and direction of '
            'the coordinate system, text operators, fonts scaled by the text matrix, colour operators, clipping to the page, contents split into several streams or put in a form, inherited '
            'attributes, filters, object streams, linearisation and encryption without user password. For content turned by 90 or 270 degrees, at least text, formats, pictures, tables and page geometry are the same.',
  over=['inputs'], quant='every document and every equivalent way to write it',
  why='Each test file is there in one encoding only.',
  files=['pdf2docx/page/RawPage.py', 'pdf2docx/common/Element.py', 'pdf2docx/shape/Path.py', 'pdf2docx/shape/Paths.py', 'pdf2docx/image/ImagesExtractor.py', 'pdf2docx/page/Page.py', 'pdf2docx/text/Line.py', 'pdf2docx/text/TextSpan.py'],
  mech=[('rotation', 'Element.set_rotation_matrix, RawPage'), ('drawings', 'Path, RawPage._preprocess_shapes'), ('pictures', 'ImagesExtractor, RawPage._preprocess_images')],
  observe=['all sections of the docx'],
  tech='runtime monitor: differential (metamorphic) oracle over equivalent files', note='PyMuPDF loses stroke widths and groups text otherwise under 90 and 270 degrees, so only content is compared there. ' + TRUST),
 dict(id='C20', title='Paragraphs keep their position on the page',
  statement='On a page of non-overlapping paragraphs (left-aligned, centred, right-aligned, justified, with an indented or hanging first line) '
            'the line heights, spacings, indents, alignment and tab stops written to the docx put every line where the PDF has it, horizontally (left edge, right '
            'edge or centre according to its alignment) and vertically, within 2 points (in cells of ruled tables, where the same holds for horizontal and vertical text, within 3.5 points). The content never needs more height than the page body offers.',
  over=['inputs'], quant='every page of paragraphs in any fonts, sizes, alignments and leading',
  why='The layout tests compare stored block rectangles of a few files, not what the paragraph formats written to the docx amount to when they are laid out.',
  files=['pdf2docx/text/TextBlock.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/text/Lines.py', 'pdf2docx/page/Page.py', 'pdf2docx/common/docx.py', 'pdf2docx/table/TablesConstructor.py'],
  mech=[('horizontal spacing', 'TextBlock.parse_horizontal_spacing, _internal_alignment, _external_alignment'), ('vertical spacing', 'Blocks.parse_spacing, TextBlock.parse_line_spacing'), ('margins', 'Page._cal_margin')],
  observe=['paragraph formats of the docx, laid out by a simulator'],
  tech='runtime monitor: docx laid out by an independent simulator, compared with drawn positions', note='Line wrapping itself is not modelled (the rows of a paragraph are those of the PDF). ' + TRUST),
 dict(id='C02', title='Pages of two columns keep the columns',
  statement='A page whose body is divided at its centre into two columns of paragraphs (with pictures and ruled tables in them, and lines across the page above and below) comes out with the columns side by side: '
            'every line keeps its place on the page horizontally and vertically (as in C20), the left column comes completely before the right one, lines above before both, and no picture or table is lost.',
  over=['inputs'], quant='every page of two columns of paragraphs of any fonts, sizes, alignments and lengths',
  why='There is one sample of two columns; its test compares the similarity of stored layouts, not places and order in the docx.',
  files=['pdf2docx/table/TablesConstructor.py', 'pdf2docx/page/Layout.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/text/Lines.py'],
  mech=[('column detection', 'TablesConstructor.page_layout_table'), ('moving blocks into cells', 'Blocks.assign_to_tables, Cell.assign_blocks'), ('spacing in cells', 'Blocks.parse_spacing')],
  observe=['the docx, laid out by a simulator'],
  tech='runtime monitor: docx laid out by an independent simulator, compared with drawn positions and order', note='Line wrapping is not modelled. ' + TRUST),
 dict(id='C03', title='Every character keeps font, size, weight, slant and colour',
  statement='Each character of the docx has the font family, the bold and italic state, the size (font size times horizontal character scaling, within 1 %) and the text colour '
            '(gray and RGB exact up to the gray profile of MuPDF, CMYK approximately) it has in the PDF, however often they change within a line or a word, in '
            'paragraphs, table cells and vertical text; subset tags and style suffixes are removed from font names.',
  over=['inputs'], quant='every page of lines of text whose formats change anywhere',
  why='No test looks at the runs of a docx.',
  files=['pdf2docx/text/TextSpan.py', 'pdf2docx/text/Line.py', 'pdf2docx/common/share.py', 'pdf2docx/common/constants.py', 'pdf2docx/text/Char.py'],
  mech=[('font name and flags', 'TextSpan.font, set_font'), ('runs', 'TextSpan._set_text_format'), ('splitting', 'TextSpan.split')],
  observe=['runs of the docx written by Converter.convert()'],
  tech='runtime monitor: per-character format oracle over docx read back, generated pages', note=TRUST),
 dict(id='C04', title='Highlights, underlines, strike-outs and links apply to the marked text',
  statement='A rectangle behind a part of a line (a highlight), a line below it (underline) or through it (strike-out), drawn as thin rectangle or stroke, and a '
            'hyperlink over it mark exactly the characters they cover: these and no others have that mark and colour (or link target) in the docx, with several marks '
            'in one line, horizontal or vertical, across changes of font, and with marks on top of each other.',
  over=['inputs'], quant='every page of horizontal or vertical text with any number of separate marks over parts of lines (highlights: at least 9 pt wide and 85 % of the height of the line)',
  why='The tests count marked spans of one sample page; they do not tell which characters are marked on others.',
  files=['pdf2docx/text/TextSpan.py', 'pdf2docx/text/Line.py', 'pdf2docx/text/Lines.py', 'pdf2docx/shape/Shape.py', 'pdf2docx/shape/Shapes.py', 'pdf2docx/common/docx.py', 'pdf2docx/page/Page.py'],
  mech=[('mark detection', 'TextSpan._parse_text_format'), ('splitting of spans', 'TextSpan.split, Line.intersects'), ('assigning marks to text', 'Blocks.parse_text_format')],
  observe=['runs and hyperlink relationships of the docx'],
  tech='runtime monitor: per-character mark oracle over docx read back, generated pages', note=TRUST),
 dict(id='C05', title='Ruled tables keep rows, columns, merged cells, sizes and content',
  statement='A table whose cells are separated by drawn borders (long or unit lines, thin filled rectangles, stroked cell boxes) becomes one docx table with the same rows, '
            'columns and merged cells, row heights and column widths, at the same place on the page; each cell holds exactly the text drawn in it; a table drawn inside a cell becomes a '
            'nested table of that cell. Missing outer borders do not change this (if there is no cell over the full width or height and no shading).',
  over=['inputs'], quant='every page of ruled tables separated by at least 10 pt, 1-25 rows, 1-10 columns, any merged cells, any border styles',
  why='The tests compare the text of cells for three tables of sample files and nothing else.',
  files=['pdf2docx/table/TableStructure.py', 'pdf2docx/table/TablesConstructor.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/Row.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/table/Border.py', 'pdf2docx/shape/Shapes.py', 'pdf2docx/shape/Shape.py', 'pdf2docx/page/Blocks.py'],
  mech=[('grouping of strokes', 'TablesConstructor.lattice_tables'), ('merged cells', 'TableStructure.parse, _count_merged_cells'), ('cell contents', 'Cell.assign_blocks, Blocks.assign_to_tables'), ('docx table', 'TableBlock.make_docx, Cell.make_docx')],
  observe=['tables of the docx, laid out by a simulator'],
  tech='runtime monitor: structure/content oracle against the drawn table, generated pages', note=TRUST),
 dict(id='C06', title='Ruled tables keep borders, shading and text direction',
  statement='In a docx table made from a ruled one each cell side has the width and the colour of the line drawn there and no border where none is drawn, every cell filled in the PDF '
            'has that fill (empty ones too) and no other has one, and cells of vertical text have that direction. Stroked cell boxes get borders of '
            'twice the width (recorded finding).',
  over=['inputs'], quant='every page of ruled tables as for C05, with border width (0.5-3 pt), border colour and fill varying by line and by cell',
  why='No test looks at the appearance of tables.',
  files=['pdf2docx/table/Cell.py', 'pdf2docx/table/TableStructure.py', 'pdf2docx/table/TablesConstructor.py', 'pdf2docx/common/docx.py', 'pdf2docx/shape/Shape.py', 'pdf2docx/shape/Shapes.py', 'pdf2docx/shape/Path.py'],
  mech=[('border style', 'TableStructure.parse, Cell._set_style'), ('shading', 'TableStructure.parse, Shapes.fillings'), ('docx borders', 'docx.set_cell_border, set_cell_shading')],
  observe=['cell properties of the docx'],
  tech='runtime monitor: appearance oracle against the drawn table, generated pages', note=TRUST),
 dict(id='C08', title='Every picture comes out once, with its pixels, size and place',
  statement='Every raster picture shown on a page (also reused, turned, mirrored, cropped by the page edge, inside table cells, beside text or over text) is in the docx exactly as often as it is '
            'drawn, in its cell or place: same pixels as shown, so upright (exact for 8-bit RGB, 1-bit and indexed ones, approximate for CMYK and JPEG; soft masks kept as transparency; pictures at any angle and stencils as the page shows them), displayed '
            'width and height within 1.1 pt and, in the flow or floating, position within 3 pt. A floating picture lies behind the text. Nothing else is turned into a picture.',
  over=['inputs'], quant='every arrangement, sharing, format and size of pictures on pages with text and tables',
  why='Tests compare no pictures.',
  files=['pdf2docx/image/ImagesExtractor.py', 'pdf2docx/image/ImageBlock.py', 'pdf2docx/image/ImageSpan.py', 'pdf2docx/image/Image.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/page/Page.py', 'pdf2docx/common/docx.py'],
  mech=[('extracting', 'ImagesExtractor.extract_images'), ('matching with the raw dict', 'RawPage._preprocess_images'), ('inline', 'ImageSpan.make_docx'), ('floating', 'docx.add_float_image')],
  observe=['pictures of the docx: pixels, extent, anchor and place in the simulated layout'],
  tech='runtime monitor: conservation and pixel oracle against the pictures drawn, generated pages', note=TRUST),
 dict(id='C09', title='Drawings come out once, as pictures without text',
  statement='Drawings other than horizontal and vertical lines and rectangles (connected curves, polygons, charts) become pictures that together show all of the drawing, each part once, at its '
            'place (3 pt), at clip_image_res_ratio pixels a point, and without the text on it, which stays text. Tables, raster pictures, lines, marks and text beside them are as without '
            'the drawing and in no such picture, also at the edges of the page; pages of straight lines only get no picture.',
  over=['inputs'], quant='every drawing and arrangement of drawings, tables, pictures and text',
  why='Tests only check that vector graphics are converted.',
  files=['pdf2docx/image/ImagesExtractor.py', 'pdf2docx/shape/Path.py', 'pdf2docx/shape/Paths.py', 'pdf2docx/common/Collection.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/page/Blocks.py'],
  mech=[('curves or borders', 'Paths.to_shapes, Path.is_iso_oriented'), ('contours', 'ImagesExtractor._detect_svg_contours'), ('hiding text', 'ImagesExtractor._hide_page_text'), ('floating', 'Blocks.identify_floating_images')],
  observe=['pictures of the docx located in a rendering of the drawings alone', 'text, tables and pictures of the docx'],
  tech='runtime monitor: rendering oracle (template match, ink coverage) and conservation, generated pages', note='PyMuPDF renders the reference. ' + TRUST),
 dict(id='C10', title='Pages keep their size and number, margins enclose the content',
  statement='Every converted page is one section of the docx, as wide and high as the page is shown (crop box, rotation, fractional sizes, any origin). Its left and right margins are the distances of the '
            'content from the page edges (right: up to 5 points less), its top and bottom margins those distances times page_margin_factor_top/bottom, all of them between 0 and 72 points; a blank page '
            'has margins of 72 points and no content, and stays a page of its own at any place of the document.',
  over=['inputs', 'configurations'], quant='every sequence of pages of any size, rotation and content, and every pair of factors',
  why='Tests look at a few pages of the usual sizes, none of them blank, cropped or with content at the edges, and never at the sections.',
  files=['pdf2docx/page/Page.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/page/Layout.py', 'pdf2docx/common/Collection.py', 'pdf2docx/common/constants.py'],
  mech=[('page size', 'RawPage.raw_dict'), ('margins', 'Page._cal_margin'), ('sections', 'Page.make_docx')],
  observe=['sections of the docx written by Converter.convert()'],
  tech='runtime monitor: geometry oracle over the sections of the docx read back, generated pages', note=TRUST),
 dict(id='C11', title='Exactly the selected pages are converted, in document order',
  statement='start/end (end exclusive) and pages select pages, zero-based or (zero_based_index=False) one-based; out-of-range and repeated numbers are ignored. The docx has one section per '
            'selected page, in document order, equal to the one the whole document gives for that page; an empty selection is refused and leaves no docx. The same Converter can be used again '
            'for any other selection or for tables; extract_tables follows the same selection.',
  over=['inputs', 'histories'], quant='every document, every selection and every sequence of calls on one Converter',
  why='Tests convert fixed pages with a new Converter for each.',
  files=['pdf2docx/converter.py', 'pdf2docx/main.py'],
  mech=[('selection', 'Converter._page_indexes'), ('resetting', 'Converter.parse/convert'), ('document order', 'Converter.make_docx')],
  observe=['sections of the docx', 'exceptions'],
  tech='runtime monitor: differential section-by-section oracle over random selections and call histories', note=TRUST),
 dict(id='C12', title='Multi-processing writes the same docx as serial conversion',
  statement='For every document, page selection, settings and cpu_count (also more processes than pages), the docx written with multi_processing=True equals the serially written '
            'one in every part: text, formats, pictures, links, order and sections.',
  over=['inputs', 'schedules'], quant='every document, selection, number of processes and scheduling of them',
  why='One test runs multi-processing on one file and does not look at the result.',
  files=['pdf2docx/converter.py', 'pdf2docx/page/Page.py'],
  mech=[('splitting of the pages', 'Converter._parse_and_create_pages_with_multi_processing'), ('merging', 'Converter.deserialize')],
  observe=['both docx files'],
  tech='runtime monitor: differential oracle, serial versus multi-process runs with varying process counts', note='Schedules are those the kernel produced. ' + TRUST),
 dict(id='C13', title='Parsed pages survive storing and restoring',
  statement='store()/restore() (also through JSON text) and serialize()/deserialize() keep everything: docx and tables made from restored pages equal those of the pages parsed directly, '
            'restoring into a new or a used Converter, once or repeatedly, and storing restored pages gives the same data again (regions up to rounding of 3 pt for strokes).',
  over=['inputs', 'histories'], quant='every document and page selection, every sequence of store and restore',
  why='Tests store layouts but never restore them.',
  files=['pdf2docx/converter.py', 'pdf2docx/page/Page.py', 'pdf2docx/page/Layout.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/text/TextSpan.py', 'pdf2docx/image/ImageBlock.py', 'pdf2docx/shape/Shapes.py'],
  mech=[('storing', 'store() of every element'), ('restoring', 'restore() of every element')],
  observe=['docx, tables and stored data before and after'],
  tech='runtime monitor: round-trip differential oracle over generated documents', note=TRUST),
 dict(id='C14', title='Odd content is converted; a failing page never costs the others',
  statement='A page of ordinary text with legal but odd extras (paths without area, tiny, huge, masked or broken pictures, Type 3 and unnamed fonts, control characters, tiny text, '
            'forms, patterns, shadings, annotations, odd links and boxes) is converted with all characters of that text. If parsing or writing some page fails, '
            'serially or in a worker process, every other page comes out as without the failure; if all fail an error is raised and an existing docx stays; later conversions work as before.',
  over=['inputs', 'fault_sequences'], quant='every combination of odd content and every page at which a call into PyMuPDF or python-docx fails',
  why='The samples hardly contain any of it, and no test makes a page fail.',
  files=['pdf2docx/converter.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/shape/Path.py', 'pdf2docx/shape/Paths.py', 'pdf2docx/image/ImagesExtractor.py', 'pdf2docx/text/TextSpan.py', 'pdf2docx/table/TableStructure.py'],
  mech=[('fault isolation', 'Converter.parse, make_docx'), ('degenerate content', 'Path, Paths, TextSpan, ImagesExtractor')],
  observe=['sections of the docx', 'messages', 'exceptions'],
  tech='runtime monitor with fault injection: errors injected into PyMuPDF/python-docx calls, hostile generated pages, differential oracle', note='Inline images are left out (use after free inside PyMuPDF 1.23.7). ' + TRUST),
 dict(id='C15', title='Only the documented output files are written',
  statement='Every entry point reads the PDF without changing it and writes, removes or renames nothing but its documented outputs: the docx (default: the name of the PDF with its extension '
            'replaced by .docx, beside it), the serialized layout, the debug PDF and JSON; multi-processing removes its temporary files. No other file is touched, whatever its name; a refused call leaves an existing docx as it was.',
  over=['inputs', 'histories', 'fault_sequences'], quant='every entry point, file name and folder content',
  why='Tests only check that a docx exists.',
  files=['pdf2docx/converter.py', 'pdf2docx/main.py'],
  mech=[('default names', 'Converter.convert/make_docx'), ('temporary files', 'Converter._parse_and_create_pages_with_multi_processing'), ('debug files', 'Converter.debug_page')],
  observe=['audit events of open/remove/rename in every process', 'folder snapshots'],
  tech='runtime monitor: audit-hook log of file operations and folder snapshots, in scratch folders', note=TRUST),
 dict(id='C16', title='The docx depends on the page and the settings only',
  statement='Converting the same PDF with the same settings gives the same docx whatever was done before in the process (other conversions, rotated pages, settings, restored or failed calls), in any process, hash seed and '
            'working directory; and a page converted from a document of its own equals its section in the whole document.',
  over=['inputs', 'histories'], quant='every document and every history of earlier calls',
  why='Tests convert each file once and in one order.',
  files=['pdf2docx/converter.py', 'pdf2docx/common/Element.py', 'pdf2docx/page/Page.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/common/docx.py'],
  mech=[('global rotation matrix', 'Element.set_rotation_matrix'), ('caches, ids', 'Line._pid, docx ids')],
  observe=['all parts of the docx'],
  tech='runtime monitor: differential oracle over random histories, processes and single-page documents', note=TRUST),
 dict(id='C17', title='Every docx is a valid WordprocessingML package',
  statement='Every docx written is a valid package that word processors open without repair: parts, content types and relationships are complete and unambiguous, every relationship of a picture or link '
            'exists and is used, XML elements, their children, order, attributes and values are those of the WordprocessingML and DrawingML schemas (integer measures, six-digit colours, required '
            'attributes, nothing twice), table rows cover the grid and vertical merges continue a cell above, every cell ends with a paragraph, drawings have unique ids, media are of the type of their name.',
  over=['inputs', 'histories', 'configurations'], quant='every document, selection and settings, also docx made from restored pages',
  why='The tests read the docx with python-docx at most, which accepts misplaced elements and invalid values.',
  files=['pdf2docx/common/docx.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/table/Row.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/text/TextSpan.py', 'pdf2docx/page/Page.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/converter.py'],
  mech=[('formatting helpers', 'common/docx.py'), ('tables', 'TableBlock.make_docx, Cell._set_style'), ('links', 'docx.add_hyperlink'), ('pictures', 'docx.add_image, add_float_image')],
  observe=['all parts of the docx'],
  tech='runtime monitor: independent schema validator over every docx written, generated documents and samples', note='The schema is hand-written for the elements pdf2docx uses. ' + TRUST),
 dict(id='C24', title='Extracted tables equal those drawn and those of the docx',
  statement='extract_tables() returns every ruled table of the selected pages, in order, as rows of cells: the text of each cell as drawn (words separated), merged cells once with empty places (None) for the '
            'rest, a nested table as <NEST TABLE>, a picture as <image>; what it returns agrees with the tables of the docx of the same pages.',
  over=['inputs', 'configurations'], quant='every page of ruled tables of the kinds of C05, with pictures, paragraphs and nested tables',
  why='The tests compare the tables of three sample pages.',
  files=['pdf2docx/converter.py', 'pdf2docx/page/Page.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/Row.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/text/Line.py', 'pdf2docx/text/TextSpan.py'],
  mech=[('extracting', 'Page.extract_tables, TableBlock.text, Cell.text, Row'), ('structure', 'TableStructure.parse')],
  observe=['return values of extract_tables', 'tables of the docx'],
  tech='runtime monitor: content oracle against drawn tables and differential oracle against the docx', note=TRUST),
]
NOT_APPLICABLE = {}
NOTES = 'check.py <id> quick|thorough; VERIF_SEED selects the inputs; --replay <file> reruns one case.'
