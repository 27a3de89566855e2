From 5a4b2f2deb2bdd32e1897bdbd3c3f045d39c655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 01/75] fix: default docx filename replaces the extension only

'X.PDF' was kept as it is, so the source file was removed and overwritten;
'.pdf' in a folder name was changed too.
---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index beb5d25..014eb5f 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -102,7 +102,7 @@ class Converter:
             raise Exception('No parsed pages. Please parse page first.')
 
         # docx file to convert to        
-        filename = docx_filename if docx_filename else self.filename_pdf.replace('.pdf', '.docx')
+        filename = docx_filename if docx_filename else os.path.splitext(self.filename_pdf)[0] + '.docx'
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From 35bbae592acbe403469d54c291953f7ecd6ffbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 02/75] fix: an empty page selection doesn't convert the whole
 document

Pages out of range, an empty range (start>=end) or end=0 (--end=1 with one-based
index) select no page, rather than all pages.
---
 pdf2docx/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 014eb5f..420e7bc 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -72,7 +72,7 @@ class Converter:
         Returns:
             Converter: self
         """        
-        indexes = page_indexes if page_indexes else range(len(self._pages))
+        indexes = page_indexes if page_indexes is not None else range(len(self._pages))
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
             print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
@@ -348,7 +348,7 @@ class Converter:
         if pages: 
             indexes = [int(x) for x in pages if 0<=x<pdf_len]
         else:
-            end = end or pdf_len
+            end = pdf_len if end is None else end
             s = slice(int(start), int(end))
             indexes = range(pdf_len)[s]
         
-- 
2.43.0


From 17509dd19346a6f09a2c0610b519729db553584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 03/75] fix: multi-processing converts the selected pages only

The whole range from the first to the last selected page was converted, and an empty
selection raised ValueError.
---
 pdf2docx/converter.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 420e7bc..9cdf9e7 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -288,9 +288,8 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        start, end = min(page_indexes), max(page_indexes)
         prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, start, end, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
+        vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
         pool = Pool()
@@ -315,19 +314,18 @@ class Converter:
             vector (list): A list containing required parameters.
                 * 0  : segment number for current process                
                 * 1  : count of CPUs
-                * 2,3: whole pages range to process since sometimes need only parts of pdf pages                
-                * 4  : pdf filename
-                * 5  : configuration parameters
-                * 6  : json filename storing parsed results
+                * 2  : all page indexes to process since sometimes need only parts of pdf pages                
+                * 3  : pdf filename
+                * 4  : configuration parameters
+                * 5  : json filename storing parsed results
         '''
         # recreate the arguments
-        idx, cpu, s, e, pdf_filename, kwargs, json_filename = vector
+        idx, cpu, all_indexes, pdf_filename, kwargs, json_filename = vector
 
         # worker
         cv = Converter(pdf_filename)
 
         # all pages to process
-        all_indexes = range(s, e+1)
         num_pages = len(all_indexes)
 
         # pages per segment
-- 
2.43.0


From d786b33a09a72ee593fecfdeb7dca29c560e959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 04/75] fix: multi-processing doesn't touch the files of the
 current folder

pages-0.json, pages-1.json... in the current folder were overwritten, restored and
removed, by any conversion running there; worker processes were left running.
---
 pdf2docx/converter.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 9cdf9e7..5fe0a5e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -2,6 +2,7 @@
 
 import os
 import json
+from tempfile import TemporaryDirectory
 from time import perf_counter
 from multiprocessing import Pool, cpu_count
 import fitz
@@ -288,19 +289,21 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
-
-        # start parsing processes
-        pool = Pool()
-        pool.map(self._parse_pages_per_cpu, vectors, 1)
-        
-        # restore parsed page data
-        for i in range(cpu):
-            filename = f'{prefix}-{i}.json'
-            if not os.path.exists(filename): continue            
-            self.deserialize(filename)
-            os.remove(filename)
+        # json file writing parsed pages per process, in a private folder
+        with TemporaryDirectory() as folder:
+            prefix = os.path.join(folder, 'pages')
+            vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
+
+            # start parsing processes
+            with Pool() as pool:
+                pool.map(self._parse_pages_per_cpu, vectors, 1)
+            
+            # restore parsed page data
+            for i in range(cpu):
+                filename = f'{prefix}-{i}.json'
+                if not os.path.exists(filename): continue            
+                self.deserialize(filename)
+                os.remove(filename)
         
         # create docx file
         self.make_docx(docx_filename)
-- 
2.43.0


From c0ecf727938d3f63a665df98a5213e0a743a6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 05/75] fix: floating images survive restoring and are not
 doubled by parsing again

Floating images were restored to the flow blocks, which don't make them: they were
lost after deserialize() and with multi-processing.
---
 pdf2docx/page/Blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 45d7685..eac88ac 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -101,6 +101,7 @@ class Blocks(Collection):
             Blocks: self
         '''
         self.reset()  # clean current instances
+        self.floating_image_blocks = []
         for raw_block in raws:
             block_type = raw_block.get('type', -1) # type: int
             
@@ -116,6 +117,8 @@ class Blocks(Collection):
             elif block_type == BlockType.FLOAT_IMAGE.value:
                 block = ImageBlock(raw_block)
                 block.set_float_image_block()
+                self.floating_image_blocks.append(block)
+                block = None # not a part of the flow layout
 
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
-- 
2.43.0


From dd8a4167484a7ece4fe0a34dbaea84450397e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 06/75] fix: a stream table is still a stream table when
 restored

extract_tables() counted the restored stream tables as lattice tables.
---
 pdf2docx/page/Blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index eac88ac..d410a41 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -123,6 +123,7 @@ class Blocks(Collection):
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
                 block = TableBlock(raw_block)
+                if block_type == BlockType.STREAM_TABLE.value: block.set_stream_table_block()
             
             else:
                 block = None            
-- 
2.43.0


From 4f971bae5c46450588a0ebb14b367f397727367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 07/75] fix: restoring pages doesn't depend on the rotation of
 the page parsed before

---
 pdf2docx/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 5fe0a5e..ef0e9b6 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -7,6 +7,7 @@ from time import perf_counter
 from multiprocessing import Pool, cpu_count
 import fitz
 from docx import Document
+from .common.Element import Element
 from .page.Page import Page
 
 
@@ -133,6 +134,8 @@ class Converter:
 
     def restore(self, data:dict):
         '''Restore pages from parsed results.'''
+        # stored coordinates are in real page CS already, whatever page was parsed just before
+        Element.set_rotation_matrix(fitz.Matrix(0.0))
         for raw_page in data.get('pages', []):
             idx = raw_page.get('id', -1)
             self._pages[idx].restore(raw_page)
-- 
2.43.0


From f7943c5a0e478159e7700ee4c56f06d199ce3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 08/75] fix: clipping a page leaves its text as it was

Hiding the text edits the content streams, also inside strings ('BT' -> 'BT 3 Tr'), which
changed the text of pages parsed again or sharing their contents with other pages.
---
 pdf2docx/image/ImagesExtractor.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 43012f3..968992d 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -94,7 +94,7 @@ class ImagesExtractor:
         images = []
         for group in groups:
             bbox = group.bbox
-            pix = page.getPixmap(clip=bbox, matrix=fitz.Matrix(clip_image_res_ratio, clip_image_res_ratio))
+            pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
             raw_dict = cls._to_raw_dict(pix, bbox)
             images.append(raw_dict)
         
@@ -169,6 +169,9 @@ class ImagesExtractor:
 
         Args:
             page (fitz.Page): pdf page to extract.
+
+        Returns:
+            dict: Source content streams to set back.
         """
         # render Tr: set the text rendering mode
         # - 3: neither fill nor stroke the text -> invisible
@@ -176,11 +179,13 @@ class ImagesExtractor:
         # - https://github.com/pymupdf/PyMuPDF/issues/257
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
-        for xref in page.get_contents():
-            stream = doc.xrefStream(xref).replace(b'BT', b'BT 3 Tr') \
+        sources = { xref: doc.xrefStream(xref) for xref in page.get_contents() }
+        for xref in sources:
+            stream = sources[xref].replace(b'BT', b'BT 3 Tr') \
                                              .replace(b'Tm', b'Tm 3 Tr') \
                                              .replace(b'Td', b'Td 3 Tr')
             doc.updateStream(xref, stream)
+        return sources
 
 
     @classmethod
@@ -196,13 +201,17 @@ class ImagesExtractor:
             fitz.Pixmap: The extracted pixmap.
         """        
         # hide text 
-        cls._hide_page_text(page)
+        sources = cls._hide_page_text(page)
         
         # improve resolution
         # - https://pymupdf.readthedocs.io/en/latest/faq.html#how-to-increase-image-resolution
         # - https://github.com/pymupdf/PyMuPDF/issues/181
         bbox = page.rect if bbox is None else bbox & page.rect
-        return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
+        try:
+            return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
+        finally:
+            # set text back, since these contents may be parsed once more, or shared with other pages
+            for xref in sources: page.parent.updateStream(xref, sources[xref])
 
    
     @staticmethod
-- 
2.43.0


From 10a21845d281ead203c65d0635019f9196488e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 09/75] fix: a conversion holds the selected pages only, not
 the ones of the previous conversion

---
 pdf2docx/converter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index ef0e9b6..01f2de8 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -233,6 +233,7 @@ class Converter:
         
         # pages to convert
         page_indexes = self._page_indexes(start, end, pages, len(self))
+        self._reset_pages()
         
         # convert page by page
         t0 = perf_counter()        
@@ -258,6 +259,7 @@ class Converter:
         # PDF pages to convert
         kwargs = kwargs if kwargs else {}
         page_indexes = self._page_indexes(start, end, pages, len(self))
+        self._reset_pages()
 
         # process page by page
         self.parse(page_indexes, kwargs)
@@ -269,6 +271,11 @@ class Converter:
         return tables
 
 
+    def _reset_pages(self):
+        '''Forget pages parsed before, e.g. by last conversion with this instance.'''
+        for page in self._pages: page._finalized = False
+
+
     def _parse_and_create_pages(self, docx_filename:str, page_indexes:list, kwargs:dict):
         '''Parse and create pages based on page indexes.
         
-- 
2.43.0


From 9b2f36c58f4d393c501e95ac3ace1d894cbef725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 10/75] fix: paragraph with indented first line stays where it
 is

---
 pdf2docx/text/TextBlock.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index e4dcfc4..05fa2ec 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -294,8 +294,9 @@ class TextBlock(Block):
             pf.alignment = WD_ALIGN_PARAGRAPH.JUSTIFY
 
         # - paragraph indentation
-        # NOTE: first-line-indent should be excluded
-        pf.left_indent  = Pt(self.left_space-self.first_line_space)
+        # NOTE: left space is counted to the left edge of block, i.e. the first line in case of hanging 
+        # indent (negative first-line-indent), otherwise the rest lines
+        pf.left_indent  = Pt(self.left_space-min(self.first_line_space, 0.0))
         pf.right_indent  = Pt(self.right_space)
 
         # - first line indentation
-- 
2.43.0


From 778cb08853139a47cd315eeca64174aa0908aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 11/75] fix: centered paragraph keeps its center line

---
 pdf2docx/text/TextBlock.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 05fa2ec..3eba943 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -299,6 +299,13 @@ class TextBlock(Block):
         pf.left_indent  = Pt(self.left_space-min(self.first_line_space, 0.0))
         pf.right_indent  = Pt(self.right_space)
 
+        # NOTE: lines aligned to each other at center aren't necessarily at the center of page or cell,
+        # so keep their center line with the indentation at one side
+        if self.alignment==TextAlignment.CENTER:
+            d = self.left_space_total - self.right_space_total
+            pf.left_indent  = Pt(max(d, 0.0))
+            pf.right_indent  = Pt(max(-d, 0.0))
+
         # - first line indentation
         pf.first_line_indent = Pt(self.first_line_space)
 
-- 
2.43.0


From 7064d44179378f88473462a513f6b525d26ed6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 12/75] fix: no dummy table on top of a page whose lines all
 cross the page center

---
 pdf2docx/table/TablesConstructor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 92a0652..c1a8efa 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -68,8 +68,11 @@ class TablesConstructor:
         X = (x0+x1) / 2.0
         column_elements = list(filter(
                 lambda line: line.bbox[2]<X or line.bbox[0]>X, elements))
-        span_elements = filter(
-                lambda line: line.bbox[2]>=X>=line.bbox[0], elements)
+        span_elements = list(filter(
+                lambda line: line.bbox[2]>=X>=line.bbox[0], elements))
+        
+        # no columns at all: every line goes across the page center
+        if span_elements and not column_elements: return
         
         # check: intersected elements must on the top or bottom side
         u0, v0, u1, v1 = Collection(column_elements).bbox
-- 
2.43.0


From d65c0df94fc0c2c13501b8891473574cba98f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 13/75] fix: two-columns layout table doesn't push the
 paragraphs around it

---
 pdf2docx/table/TablesConstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index c1a8efa..fd1896d 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -80,7 +80,12 @@ class TablesConstructor:
 
         # create dummy strokes for table parsing        
         m0, m1 = (x0+u0)/2.0, (x1+u1)/2.0
-        n0, n1 = v0-constants.MAJOR_DIST, v1+constants.MAJOR_DIST        
+        n0, n1 = v0-constants.MAJOR_DIST, v1+constants.MAJOR_DIST
+        # ... without overlapping the elements above and below
+        for e in span_elements:
+            if e.bbox[3]<v0: n0 = max(n0, e.bbox[3])
+            else: n1 = min(n1, e.bbox[1])
+
         strokes = [
             Stroke().update_bbox((m0, n0, m1, n0)), # top
             Stroke().update_bbox((m0, n1, m1, n1)), # bottom
-- 
2.43.0


From 32a8a6eee8fe5b0e07a953cb9c04b3a1b9a36774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 14/75] fix: justified paragraph keeps the indentation of its
 first line

---
 pdf2docx/text/TextBlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 3eba943..b2e4e1b 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -371,7 +371,9 @@ class TextBlock(Block):
 
         if left_aligned and right_aligned:
             # need further external check if two lines only
-            return TextAlignment.JUSTIFY if len(rows)>=3 else TextAlignment.UNKNOWN
+            if len(rows) < 3: return TextAlignment.UNKNOWN
+            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            return TextAlignment.JUSTIFY
         elif left_aligned:
             self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
             return TextAlignment.LEFT
-- 
2.43.0


From 2e91e859cecf925db94c942e42f987fdc7305209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 15/75] fix: shapes sharing an x-coordinate aren't lost when
 grouping connected ones

---
 pdf2docx/common/Collection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/common/Collection.py b/pdf2docx/common/Collection.py
index 83e803d..9e6a8fe 100644
--- a/pdf2docx/common/Collection.py
+++ b/pdf2docx/common/Collection.py
@@ -109,6 +109,12 @@ class BaseCollection:
             i_rect_x.append((i+1, points, points[2]))
             i += 2
         i_rect_x.sort(key=lambda item: item[-1])
+        
+        # NOTE: distinct x-coordinates are required, so represent them with the sorted position,
+        # otherwise rects sharing an edge position, e.g. borders of a table, might be lost
+        i_rect_x = [(i, points, k) for k, (i, points, _) in enumerate(i_rect_x)]
+        for i, points, k in i_rect_x: points[2 if i%2 else 0] = k
+
         solve_rects_intersection(i_rect_x, 2*num, index_groups)
 
         # search graph -> grouped index of instance
-- 
2.43.0


From 99221d25f87119dc47022e6701777e8776f92d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 16/75] fix: merged cells of a table don't depend on the order
 of its strokes

---
 pdf2docx/table/TableStructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 80db6bc..558925d 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -391,6 +391,10 @@ class TableStructure:
         # at least 2 inner strokes exist
         if not h_strokes or not v_strokes: return None, None
 
+        # strokes in a same row/column must be sorted, required by checking merged cells and borders
+        for row_strokes in h_strokes.values(): row_strokes.sort_in_line_order()
+        for col_strokes in v_strokes.values(): col_strokes.sort_in_reading_order()
+
         # Note: add dummy strokes if no outer strokes exist        
         table_bbox = Element().update_bbox((X0, Y0, X1, Y1)) # table bbox
         TableStructure._check_outer_strokes(table_bbox, h_strokes, 'top', max_border_width)
-- 
2.43.0


From 759eeff3fa539cdf94720ab09cc95e04757eda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 17/75] fix: empty cells of a table with explicit borders keep
 their shading

---
 pdf2docx/table/TablesConstructor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index fd1896d..2a1b08a 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -146,7 +146,8 @@ class TablesConstructor:
         grouped_strokes = remove_overlap(grouped_strokes) 
 
         # all filling shapes
-        fills = self._shapes.table_fillings
+        # NOTE: including potential highlights since the shading of an empty cell contains no text
+        fills = Shapes(list(self._shapes.table_fillings) + list(self._shapes.text_highlights))
 
         # parse table with each group
         tables = Blocks()
-- 
2.43.0


From 5de036e69ce1b1b48e4d22691d24d632a6ec4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 18/75] fix: separate boxes don't intersect, e.g. hyperlinks,
 highlights and nested tables stay where they are

The intersection of separate Rects is an invalid Rect since PyMuPDF 1.19, which isn't False.
---
 pdf2docx/common/Collection.py     |  2 +-
 pdf2docx/common/Element.py        | 19 ++++++++++++++++++-
 pdf2docx/image/ImagesExtractor.py |  2 +-
 pdf2docx/table/Cell.py            |  4 ++--
 pdf2docx/text/Char.py             |  2 +-
 pdf2docx/text/Lines.py            |  2 +-
 pdf2docx/text/TextSpan.py         |  2 +-
 7 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/common/Collection.py b/pdf2docx/common/Collection.py
index 9e6a8fe..a5733c7 100644
--- a/pdf2docx/common/Collection.py
+++ b/pdf2docx/common/Collection.py
@@ -49,7 +49,7 @@ class BaseCollection:
         Examples 1::
 
             # group instances intersected with each other
-            fun = lambda a,b: a.bbox & b.bbox
+            fun = lambda a,b: a.intersection(b.bbox)
         
         Examples 2::
 
diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index 306192f..799bee9 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -130,6 +130,23 @@ class Element(IText):
     # --------------------------------------------
     # location relationship to other Element instance
     # -------------------------------------------- 
+    def intersection(self, bbox):
+        """Intersection with given bbox.
+
+        Args:
+            bbox (fitz.Rect): Target bbox.
+
+        Returns:
+            fitz.Rect: Intersection, or an empty (False) Rect if there's no intersection.
+
+        .. note::
+            The intersection of separate Rects with ``&`` is an invalid Rect since ``PyMuPDF 1.19``, 
+            which isn't False any more.
+        """
+        b = self.bbox & bbox
+        return b if b.x0<=b.x1 and b.y0<=b.y1 else fitz.Rect()
+
+
     def contains(self, e, threshold:float=1.0):
         """Whether given element is contained in this instance, with margin considered.
 
@@ -174,7 +191,7 @@ class Element(IText):
         bbox_2 = e.bbox if hasattr(e, 'bbox') else fitz.Rect(e)
         
         # areas
-        b = bbox_1 & bbox_2
+        b = self.intersection(bbox_2)
         if not b: return None # no intersection
 
         a1, a2, a = bbox_1.getArea(), bbox_2.getArea(), b.getArea()        
diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 968992d..8844c71 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -87,7 +87,7 @@ class ImagesExtractor:
         contours = cls._detect_svg_contours(page, exclude_areas)
 
         # filter contours
-        fun = lambda a,b: a.bbox & b.bbox
+        fun = lambda a,b: a.intersection(b.bbox)
         groups = contours.group(fun)
 
         # clip images
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 16dea4d..8a36ddd 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -117,7 +117,7 @@ class Cell(Element):
             return
         
         # add nothing if no intersection
-        if not self.bbox & block.bbox: return
+        if not self.intersection(block.bbox): return
 
         # otherwise, further check lines in text block
         if not block.is_text_image_block():  return
@@ -137,7 +137,7 @@ class Cell(Element):
         '''
         # add shape if contained in cell
         for shape in shapes:
-            if self.bbox & shape.bbox: self.layout.shapes.append(shape)
+            if self.intersection(shape.bbox): self.layout.shapes.append(shape)
         self.layout.shapes.detect_initial_categories()
 
 
diff --git a/pdf2docx/text/Char.py b/pdf2docx/text/Char.py
index d895f33..85769e1 100644
--- a/pdf2docx/text/Char.py
+++ b/pdf2docx/text/Char.py
@@ -45,7 +45,7 @@ class Char(Element):
 
         # intersection?
         else:
-            intsec = self.bbox & rect.bbox
+            intsec = self.intersection(rect.bbox)
             if horizontal:
                 return intsec.width > 0.5*self.bbox.width
             else:
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 7c6df23..da97958 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -270,7 +270,7 @@ class Lines(Collection):
 
         for line in self._instances:
             # any intersection in this line?
-            intsec = rect.bbox & line.get_expand_bbox(constants.MAJOR_DIST)
+            intsec = rect.intersection(line.get_expand_bbox(constants.MAJOR_DIST))
             
             if not intsec: 
                 if rect.bbox.y1 < line.bbox.y0: break # lines must be sorted in advance
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ed821a3..ba6fb9b 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -211,7 +211,7 @@ class TextSpan(Element):
         """        
         # any intersection in this span?
         # NOTE: didn't consider the case that an underline is out of a span
-        intsec = rect.bbox & self.bbox
+        intsec = rect.intersection(self.bbox)
 
         # no, then add this span as it is
         if not intsec: return [self]
-- 
2.43.0


From ee3ef96a2b2d468974ea1d84a74a698df05c7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 19/75] fix: pages with unnamed fonts are converted, also if
 Arial isn't built in PyMuPDF

---
 pdf2docx/text/TextSpan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ba6fb9b..c30b4ac 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -118,7 +118,10 @@ class TextSpan(Element):
             fontname (str): Font name.
         '''
         # set new font
-        font = fitz.Font(fontname)
+        try:
+            font = fitz.Font(fontname)
+        except Exception:
+            font = fitz.Font('helv') # not built in PyMuPDF, e.g. Arial: estimate with Helvetica, which has same metrics
         self._font = fontname
 
         # compute text length under new font with that size
-- 
2.43.0


From bcfecbd0536f447b35ff82f912dd03d353f9d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 20/75] fix: images keep their height, also if scaled
 differently in width and height

---
 pdf2docx/common/docx.py      | 11 +++++++----
 pdf2docx/image/Image.py      |  4 +++-
 pdf2docx/image/ImageBlock.py |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 97ab975..aaa82a4 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -198,17 +198,19 @@ def add_hyperlink(paragraph, url, text):
 # ---------------------------------------------------------
 # image properties
 # ---------------------------------------------------------
-def add_image(p, image_path_or_stream, width):
+def add_image(p, image_path_or_stream, width, height=None):
     ''' Add image to paragraph.
     
     Args:
         p (Paragraph): ``python-docx`` paragraph instance.
         image_path_or_stream (str, bytes): Image path or stream.
         width (float): Image width in Pt.
+        height (float, optional): Image height in Pt. Defaults to None, i.e. scaled with the width.
     '''
     docx_span = p.add_run()
     try:
-        docx_span.add_picture(image_path_or_stream, width=Pt(width))
+        docx_span.add_picture(image_path_or_stream, width=Pt(width),
+            height=None if height is None else Pt(height))
     except UnrecognizedImageError:
         print('Unrecognized Image.')
         return
@@ -282,7 +284,7 @@ class _CT_Anchor(BaseOxmlElement):
 register_element_cls('wp:anchor', _CT_Anchor)
 
 
-def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
+def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None, height=None):
     '''Add float image behind text.
     
     Args:
@@ -291,11 +293,12 @@ def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
         width (float): Displaying width of picture, in unit Pt.
         pos_x (float): X-position (English Metric Units) to the top-left point of page valid region
         pos_y (float): Y-position (English Metric Units) to the top-left point of page valid region
+        height (float, optional): Displaying height of picture, in unit Pt. Defaults to None, i.e. scaled with the width.
     '''
     run = p.add_run()
     # parameters for picture, e.g. id, name
     rId, image = run.part.get_or_add_image(image_path_or_stream)
-    cx, cy = image.scaled_dimensions(Pt(width), None)
+    cx, cy = image.scaled_dimensions(Pt(width), None if height is None else Pt(height))
     shape_id, filename = run.part.next_id, image.filename
     anchor = _CT_Anchor.new_pic_anchor(shape_id, rId, filename, cx, cy, Pt(pos_x), Pt(pos_y))
     run._r.add_drawing(anchor)
diff --git a/pdf2docx/image/Image.py b/pdf2docx/image/Image.py
index 676d24d..e0af5cd 100644
--- a/pdf2docx/image/Image.py
+++ b/pdf2docx/image/Image.py
@@ -94,4 +94,6 @@ class Image(Element):
     def make_docx(self, paragraph):
         '''Add image span to a docx paragraph.'''
         # add image
-        docx.add_image(paragraph, BytesIO(self.image), self.bbox.x1-self.bbox.x0)
\ No newline at end of file
+        # NOTE: the image may be scaled differently in width and height
+        x0, y0, x1, y1 = self.bbox
+        docx.add_image(paragraph, BytesIO(self.image), x1-x0, y1-y0)
\ No newline at end of file
diff --git a/pdf2docx/image/ImageBlock.py b/pdf2docx/image/ImageBlock.py
index 16c8874..17c6668 100644
--- a/pdf2docx/image/ImageBlock.py
+++ b/pdf2docx/image/ImageBlock.py
@@ -92,7 +92,7 @@ class ImageBlock(Image, Block): # to get Image.plot() in first priority
         '''
         if self.is_float_image_block():
             x0, y0, x1, y1 = self.bbox
-            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0)
+            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0, height=y1-y0)
         else:
             super().make_docx(p)
         return p
\ No newline at end of file
-- 
2.43.0


From d722ccf95803736317021db50c7bc446e1781e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 21/75] fix: marks just touching a piece of text don't collapse
 its region, e.g. neighbouring highlights aren't lost

---
 pdf2docx/text/TextSpan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index c30b4ac..aa483d7 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -239,6 +239,9 @@ class TextSpan(Element):
         f = lambda items: items[1].contained_in_rect(rect, horizontal)
         index_chars = list(filter(f, enumerate(self.chars)))
 
+        # nothing to split, e.g. the rect just touches the edge of this span
+        if not index_chars: return [self]
+
         # then we get target chars in a sequence
         pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
         length = len(index_chars)
-- 
2.43.0


From 128289d9924e78948675d74cbfa9ff3b17965595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 22/75] fix: filled paths without area don't make a page fail

---
 pdf2docx/shape/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 7b9bd4c..af6a693 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -212,7 +212,7 @@ class Path:
         # path segments
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
-        close_path, w = raw['closePath'], raw['width']
+        close_path, w = raw['closePath'], raw['width'] or 0.0 # no width if filled only
         for segments in self._group_segments(raw['items']):
             S = Segments(segments, close_path)
             self.items.append(S)
-- 
2.43.0


From e71abe8c4f03fbe22cb661c6e96463f718d5e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 23/75] fix: rectangles with negative width are considered,
 e.g. highlights, cell shadings and borders

---
 pdf2docx/shape/Path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index af6a693..66d5a97 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -66,7 +66,8 @@ class L(Segment):
 class R(Segment):
     '''Rect path with source ``("re", rect)``.'''
     def __init__(self, item):
-        self.rect = item[1]
+        # NOTE: negative width or height is allowed in pdf
+        self.rect = fitz.Rect(item[1]).normalize()
 
     def to_strokes(self, width:float, color:list):
         """Convert each edge to stroke dict.
-- 
2.43.0


From f8b0600154a60371a864f4db9090380bcd9e2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 24/75] fix: filled rectangles with implicitly closed outline
 aren't taken as vector graphics

---
 pdf2docx/shape/Path.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 66d5a97..99742c8 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -107,7 +107,7 @@ class C(Segment):
 
 class Segments:
     '''A sub-path composed of one or more segments.'''
-    def __init__(self, items:list, close_path=False): 
+    def __init__(self, items:list, close_path=False, filled=False): 
         self._instances = [] # type: list[Segment]
         for item in items:
             if   item[0] == 'l' : self._instances.append(L(item))
@@ -120,7 +120,7 @@ class Segments:
             self._instances.append(L(item))
 
         # calculate bbox
-        self.bbox, self.area = self._cal_bbox_and_area()
+        self.bbox, self.area = self._cal_bbox_and_area(filled)
 
     
     def __iter__(self): return (instance for instance in self._instances)
@@ -133,7 +133,7 @@ class Segments:
         return bbox_area==0 or self.area/bbox_area>=constants.FACTOR_MOST
 
 
-    def _cal_bbox_and_area(self):
+    def _cal_bbox_and_area(self, filled=False):
         '''Calculate bbox and area of Segments. 
         
         .. note::
@@ -149,6 +149,9 @@ class Segments:
         points = []
         for segment in self._instances:
             points.extend(segment.points)
+
+        # filled path is closed implicitly, though the closing line isn't drawn
+        if filled: points.append(points[0])
         
         # bbox: `round()` is required to avoid float error
         x0 = min(points, key=lambda point: point[0])[0]
@@ -214,8 +217,9 @@ class Path:
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
         close_path, w = raw['closePath'], raw['width'] or 0.0 # no width if filled only
+        filled = raw.get('fill', None) is not None
         for segments in self._group_segments(raw['items']):
-            S = Segments(segments, close_path)
+            S = Segments(segments, close_path, filled)
             self.items.append(S)
 
             # update bbox: note iso-oriented line segments -> S.bbox.getArea()==0
-- 
2.43.0


From f2d1238f70b237229a28acf204809e42c7c6d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 25/75] fix: debug mode plots filled paths

---
 pdf2docx/shape/Path.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 99742c8..631b6a8 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -357,15 +357,17 @@ class Path:
                 canvas.drawBezier(item[1], item[2], item[3], item[4])
 
         # now apply the common properties to finish the path
+        # NOTE: properties not applicable are None, e.g. line width of a filled path
+        get = lambda key, default: default if self.raw.get(key, None) is None else self.raw[key]
         canvas.finish(
-            fill=self.raw.get("fill", None),  # fill color
-            color=self.raw.get("color", None),  # line color
-            dashes=self.raw.get("dashes", None),  # line dashing
-            even_odd=self.raw.get("even_odd", False),  # control color of overlaps
-            closePath=self.raw.get("closePath", True),  # whether to connect last and first point
-            lineJoin=self.raw.get("lineJoin", 0),  # how line joins should look like
-            lineCap=max(self.raw["lineCap"]) if "lineCap" in self.raw else 0,  # how line ends should look like
-            width=self.raw.get("width", 1),  # line width
-            stroke_opacity=self.raw.get("opacity", 1),  # same value for both
-            fill_opacity=self.raw.get("opacity", 1)  # opacity parameters
+            fill=get("fill", None),  # fill color
+            color=get("color", None),  # line color
+            dashes=get("dashes", None),  # line dashing
+            even_odd=get("even_odd", False),  # control color of overlaps
+            closePath=get("closePath", True),  # whether to connect last and first point
+            lineJoin=get("lineJoin", 0),  # how line joins should look like
+            lineCap=max(get("lineCap", (0,))),  # how line ends should look like
+            width=get("width", 1),  # line width
+            stroke_opacity=get("opacity", 1),  # same value for both
+            fill_opacity=get("opacity", 1)  # opacity parameters
             )
\ No newline at end of file
-- 
2.43.0


From 5d164118ac5d5e208b23de1f0af6e67363418db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 26/75] fix: closed polylines of four lines are considered,
 e.g. borders of table cells

---
 pdf2docx/shape/Path.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 631b6a8..1175c8a 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -15,6 +15,7 @@ Data structure based on results of ``page.getDrawings()``::
             ("l", p1, p2),         # a line from p1 to p2
             ("c", p1, p2, p3, p4), # cubic Bézier curve from p1 to p4, p2 and p3 are the control points
             ("re", rect),          # a rect
+            ("qu", quad),          # a quad
         ],
         ...
     }
@@ -266,6 +267,17 @@ class Path:
                     segments = []
                 # add this segment
                 segments_list.append([item])
+
+            # quad, i.e. four lines returning to the first point
+            elif item[0] == 'qu':
+                # close current segments
+                if segments:
+                    segments_list.append(segments)
+                    segments = []
+                # add these lines
+                quad = item[1]
+                points = [quad.ul, quad.ur, quad.lr, quad.ll, quad.ul]
+                segments_list.append([('l', start, end) for start, end in zip(points, points[1:])])
         
         # add last segments if exists
         if segments: segments_list.append(segments)
@@ -355,6 +367,8 @@ class Path:
                 canvas.drawRect(item[1])
             elif item[0] == "c":  # curve
                 canvas.drawBezier(item[1], item[2], item[3], item[4])
+            elif item[0] == "qu":  # quad
+                canvas.drawQuad(item[1])
 
         # now apply the common properties to finish the path
         # NOTE: properties not applicable are None, e.g. line width of a filled path
-- 
2.43.0


From 84e2b9adb9d96f9f158341322b1f7c770e40d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 27/75] fix: soft mask of another size than its image

---
 pdf2docx/image/ImagesExtractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 8844c71..7fb4bf2 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -245,7 +245,13 @@ class ImagesExtractor:
             pix = fitz.Pixmap(pix, 1)  
             
             # create pixmap of the /SMask entry
-            ba = bytearray(fitz.Pixmap(doc, s).samples)
+            mask = fitz.Pixmap(doc, s)
+
+            # its size may be different from the base image
+            if (mask.width, mask.height) != (pix.width, pix.height):
+                mask = fitz.Pixmap(mask, pix.width, pix.height, None)
+
+            ba = bytearray(mask.samples)
             for i in range(len(ba)):
                 if ba[i] > 0: ba[i] = 255
             pix.setAlpha(ba)
-- 
2.43.0


From 0b641d97ae567462e28f7b4e004c56bba080d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 28/75] fix: characters not allowed in xml don't break the page

---
 pdf2docx/text/TextSpan.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index aa483d7..3d3f404 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -29,6 +29,7 @@ this `link <https://pymupdf.readthedocs.io/en/latest/textpage.html>`_::
     }
 '''
 
+import re
 import fitz
 
 from docx.shared import Pt, RGBColor
@@ -42,6 +43,10 @@ from ..common import share, docx
 from ..shape.Shape import Shape
 
 
+# control characters, surrogates etc. which are not allowed in xml, see https://www.w3.org/TR/xml/#charsets
+ILLEGAL_XML_CHARS = re.compile('[^\t\n\r\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]')
+
+
 class TextSpan(Element):
     '''Object representing text span.'''
     def __init__(self, raw:dict=None):
@@ -89,9 +94,9 @@ class TextSpan(Element):
 
     @property
     def text(self):
-        '''Joining chars in text span'''
+        '''Joining chars in text span, except characters which are not allowed in xml, e.g. control characters.'''
         chars = [char.c for char in self.chars]        
-        return ''.join(chars)
+        return ILLEGAL_XML_CHARS.sub('', ''.join(chars))
 
     
     def cal_bbox(self):
-- 
2.43.0


From 985b5a1182083a57240492c4bc88c9eaeedbfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 29/75] fix: text smaller than a quarter of point

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 3d3f404..96b5366 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -422,7 +422,7 @@ class TextSpan(Element):
         # font size
         # NOTE: only x.0 and x.5 is accepted in docx, so set character scaling accordingly
         # if the font size doesn't meet this condition.
-        font_size = round(self.size*2)/2.0
+        font_size = max(0.5, round(self.size*2)/2.0)
         docx_run.font.size = Pt(font_size)
 
         # adjust by set scaling
-- 
2.43.0


From 734697c444701c2322cb5eae19ec205f353b7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 30/75] fix: a table row of merged cells only isn't dropped

---
 pdf2docx/table/Rows.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/table/Rows.py b/pdf2docx/table/Rows.py
index 24b9d3d..2e690b6 100644
--- a/pdf2docx/table/Rows.py
+++ b/pdf2docx/table/Rows.py
@@ -23,3 +23,9 @@ class Rows(Collection):
             row = Row(raw)
             self.append(row)
         return self
+
+    def append(self, row:Row):
+        '''Override. Append a row (allow a row of merged cells only) and update bbox accordingly.'''
+        self._instances.append(row)
+        self._update_bbox(row)
+        row.parent = self._parent # set parent
-- 
2.43.0


From 67a459ce2935c49cdf26946869a241f968428ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 31/75] fix: incomplete borders of a table don't lose or double
 its text

---
 pdf2docx/table/TableStructure.py | 36 +++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 558925d..7eb4bcb 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -452,12 +452,42 @@ class TableStructure:
                 n_row = TableStructure._count_merged_cells(merged_cells_cols[j][i:])                
                 cell.merged_cells = (n_row, n_col)
 
-                # update merged bbox
-                # A separate cell without merging can also be treated as a merged range 
-                # with 1 row and 1 colum, i.e. itself.
+        # merged range must be a rectangle, and any lattice must belong to one and only one range
+        self._check_merged_ranges()
+
+        # update merged bbox
+        # A separate cell without merging can also be treated as a merged range 
+        # with 1 row and 1 colum, i.e. itself.
+        for i in range(self.num_rows):
+            for j in range(self.num_cols):
+                cell = self.cells[i][j]
+                n_row, n_col = cell.merged_cells
                 bbox = (x_cols[j], y_rows[i], x_cols[j+n_col], y_rows[i+n_row])
                 cell.merged_bbox = fitz.Rect(bbox)
 
+
+    def _check_merged_ranges(self):
+        '''Make merged ranges separate rectangles covering all lattices. It's always the case for a regular table, 
+        but not for incomplete borders, e.g. an L-shaped range, of which the contents might be lost or duplicated.'''
+        covered = set() # lattices already belonging to a merged range
+        merged = set((i,j) for i in range(self.num_rows) for j in range(self.num_cols) if self.cells[i][j].is_merged)
+        for i in range(self.num_rows):
+            for j in range(self.num_cols):
+                if (i,j) in covered: 
+                    self.cells[i][j].merged_cells = (0, 0)
+                    continue
+
+                # the largest rectangle from this lattice, without any other separate cells
+                n_row, n_col = self.cells[i][j].merged_cells
+                available = lambda m, n: (m,n) in merged and (m,n) not in covered
+                col = 1
+                while col<n_col and available(i, j+col): col += 1
+                row = 1
+                while row<n_row and all(available(i+row, j+k) for k in range(col)): row += 1
+
+                self.cells[i][j].merged_cells = (row, col)
+                covered.update((i+m, j+n) for m in range(row) for n in range(col))
+
     
     @staticmethod
     def _check_outer_strokes(table_bbox:Element, borders:dict, direction:str, max_border_width:float):
-- 
2.43.0


From 87d69657751276ffb3586957329a1dc4eeb85bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 32/75] fix: pictures with coordinates at .5, same contents or
 same location aren't lost

---
 pdf2docx/page/RawPage.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8fb5a86..15893be 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -98,11 +98,9 @@ class RawPage:
             block['type'] = -1 # "delete" it temporally
             image_blocks_group[hash(block['image'])].append(block)
         
-        def same_images(img, img_list):
-            bbox = list(map(round, img['bbox']))
-            for _img in img_list:
-                if list(map(round, _img['bbox']))==bbox: return True
-            return False
+        def same_location(img, block):
+            # NOTE: never compare rounded values here, since a tiny difference matters, e.g. 10.49 and 10.51
+            return all(abs(a-b)<1.0 for a,b in zip(img['bbox'], block['bbox']))
 
         # An example to show complicated things here:
         # - images in `page.getImageList`: [a, b, c]
@@ -110,17 +108,25 @@ class RawPage:
         # (1) a -> a1, a2: an image in page maps to multi-instances in raw dict
         # (2) c: an image in page may not exist in raw dict -> so, add it
         # (3) d: an image in raw dict may not exist in page -> so, delete it
+        # (4) images with same contents but different alpha channel, or with same location
+        located = [] # blocks already located by an image
         for image in recovered_images:
-            for k, image_blocks in image_blocks_group.items():
-                if not same_images(image, image_blocks): continue
-                for image_block in image_blocks:
-                    image_block['type'] = 1 # add it back
-                    image_block['image'] = image['image']
-                break
+            # all instances at the location of this image, with those not assigned yet in a higher priority
+            candidates = [(block in located, i, image_blocks, block) \
+                for i, image_blocks in enumerate(image_blocks_group.values()) \
+                    for block in image_blocks if same_location(image, block)]
 
             # an image outside the page is not counted in page.getText(), so let's add it here
-            else:
+            if not candidates:
                 raw['blocks'].append(image)
+                continue
+
+            *_, image_blocks, current = min(candidates, key=lambda c: c[:2])
+            located.append(current)
+            for image_block in image_blocks:
+                if not image_block is current and image_block['type']==1: continue
+                image_block['type'] = 1 # add it back
+                image_block['image'] = image['image']
 
 
     @debug_plot('Source Paths')
-- 
2.43.0


From 008d1bb9198e0bf9fef87b47962da3c4d84e663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 33/75] fix: excluded areas at the page edge don't become
 vector graphics

---
 pdf2docx/image/ImagesExtractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 7fb4bf2..972aca7 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -115,7 +115,8 @@ class ImagesExtractor:
         gray = cv.cvtColor(src, cv.COLOR_BGR2GRAY)
         for bbox in exclude_areas:
             x0, y0, x1, y1 = map(int, bbox)
-            gray[y0-2:y1+2, x0-2:x1+2] = 255
+            # NOTE: a negative index counts from the opposite edge
+            gray[max(y0-2, 0):max(y1+2, 0), max(x0-2, 0):max(x1+2, 0)] = 255
             # cv.rectangle(src, (x0,y0), (x1,y1), (0,255,0), 1) # plot excluded areas
 
         # Gauss blur and binary        
-- 
2.43.0


From 4099c6922b34e6cc5ec35a5f78d9653e2741258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 34/75] fix: filled arches aren't rectangles

---
 pdf2docx/shape/Path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 1175c8a..90abbc1 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -152,7 +152,9 @@ class Segments:
             points.extend(segment.points)
 
         # filled path is closed implicitly, though the closing line isn't drawn
-        if filled: points.append(points[0])
+        # (the control points say nothing on the area of an open curve)
+        if filled and not any(isinstance(segment, C) for segment in self._instances):
+            points.append(points[0])
         
         # bbox: `round()` is required to avoid float error
         x0 = min(points, key=lambda point: point[0])[0]
-- 
2.43.0


From 90d83d92d17a9ca814c7fb50423dc1b427743296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 35/75] fix: images exceeding the page stay in the row of a
 stream table

---
 pdf2docx/table/TablesConstructor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 2a1b08a..14adada 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -239,7 +239,8 @@ class TablesConstructor:
             # boundary borders to be finalized
             y0_margin, y1_margin = top_bottom_boundaries(y0, y1)
             inner_bbox = (x0, y0, x1, y1)
-            outer_bbox = (X0, y0_margin, X1, y1_margin)
+            # NOTE: an image may exceed the page
+            outer_bbox = (min(X0, x0), y0_margin, max(X1, x1), y1_margin)
             outer_borders = TablesConstructor._outer_borders(inner_bbox, outer_bbox)
 
             # explicit strokes/shadings in table region
-- 
2.43.0


From 19edd2d422ced659f2d3274eb09f9a6c165eeec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 36/75] fix: images float if overlapping text by more than
 float_image_ignorable_gap, not twice of it

---
 pdf2docx/page/Blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index d410a41..8e88278 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -185,7 +185,9 @@ class Blocks(Collection):
         lines = Lines()
         for block in self._instances:
             lines.extend(block.lines)
-        groups = lines.group_by_connectivity(dx=-float_image_ignorable_gap, dy=-float_image_ignorable_gap)
+        # NOTE: both lines are shrunk, so each by half of the intersection to ignore
+        gap = float_image_ignorable_gap / 2.0
+        groups = lines.group_by_connectivity(dx=-gap, dy=-gap)
         
         # identify floating objects
         for group in filter(lambda group: len(group)>1, groups):
-- 
2.43.0


From 48c56905c1c24eb4be16198fd0ee6997d6a49c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 37/75] fix: no default paragraph below a table nested in a
 cell

---
 pdf2docx/page/Blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 8e88278..3871f7a 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -4,6 +4,7 @@
 '''
 
 from docx.shared import Pt
+from docx.table import _Cell
 from ..common import constants
 from ..common.Collection import Collection
 from ..common.share import BlockType, rgb_value
@@ -525,6 +526,11 @@ class Blocks(Collection):
             table.allow_autofit  = False
             table_block.make_docx(table)
 
+            # NOTE: `python-docx` appends an empty paragraph to a table nested in a cell, 
+            # so make it as small as possible
+            if isinstance(doc, _Cell):
+                reset_paragraph_format(doc.paragraphs[-1], line_spacing=Pt(constants.MIN_LINE_SPACING))
+
         pre_table = False
         for block in self._instances:
             # make paragraphs
-- 
2.43.0


From 44d837932673a45e9dbd89cd0b58f47532bdd586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 38/75] fix: pictures of vector graphics don't show text of
 forms, nor text with explicit rendering mode

---
 pdf2docx/image/ImagesExtractor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 972aca7..1f0c837 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -10,6 +10,7 @@ Both raster images and vector graphics are considered:
   ``re``, ``m``, ``l`` and ``c``. They're detected by finding the contours with ``opencv``.
 '''
 
+import re
 import fitz
 from ..common.share import BlockType
 from ..common.Collection import Collection
@@ -180,11 +181,13 @@ class ImagesExtractor:
         # - https://github.com/pymupdf/PyMuPDF/issues/257
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
-        sources = { xref: doc.xrefStream(xref) for xref in page.get_contents() }
+        # text may be shown by forms as well, see /Resources/XObject
+        xrefs = page.get_contents() + [item[0] for item in doc.getPageXObjectList(page.number)]
+        sources = { xref: doc.xrefStream(xref) for xref in xrefs }
         for xref in sources:
-            stream = sources[xref].replace(b'BT', b'BT 3 Tr') \
-                                             .replace(b'Tm', b'Tm 3 Tr') \
-                                             .replace(b'Td', b'Td 3 Tr')
+            # consider operators only, rather than names containing them, e.g. /BTImage
+            stream = re.sub(rb'(?<![^\s\]\)>])BT(?![^\s\[\(</])', b'BT 3 Tr', sources[xref])
+            stream = re.sub(rb'(?<![^\s\]\)>])[0-7](\s+)Tr(?![^\s\[\(</])', rb'3\1Tr', stream)
             doc.updateStream(xref, stream)
         return sources
 
-- 
2.43.0


From 33f45360e52eb2d7bb30661caa952811069997fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 39/75] fix: words of different formats stay separate in
 extracted text

---
 pdf2docx/text/Line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 825a2f9..3b8d944 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -55,8 +55,8 @@ class Line(Element):
     @property
     def text(self):
         '''Joining span text.'''
-        spans_text = [span.text.strip() for span in self.spans] # strip span text
-        return ''.join(spans_text)
+        # NOTE: blanks between spans separate words, so strip the joined text only
+        return ''.join(span.text for span in self.spans).strip()
 
 
     @property
-- 
2.43.0


From 6d37aa42a13a326e7256d8b56394407b26ec5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 40/75] fix: order of paragraph properties as required by the
 schema

---
 pdf2docx/common/docx.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index aaa82a4..343d5f3 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -55,11 +55,13 @@ def reset_paragraph_format(p, line_spacing:float=1.05):
     pf.widow_control = True
 
     # do not adjust spacing between Chinese and Latin/number
-    xml = r'<w:autoSpaceDE {} w:val="0"/>'.format(nsdecls('w'))
-    p._p.get_or_add_pPr().insert(0, parse_xml(xml))
-
-    xml = r'<w:autoSpaceDN {} w:val="0"/>'.format(nsdecls('w'))
-    p._p.get_or_add_pPr().insert(0, parse_xml(xml))
+    # NOTE: the order of child elements is specified by the schema
+    successors = ('w:bidi', 'w:adjustRightInd', 'w:snapToGrid', 'w:spacing', 'w:ind', 'w:contextualSpacing', 
+        'w:mirrorIndents', 'w:suppressOverlap', 'w:jc', 'w:textDirection', 'w:textAlignment', 'w:textboxTightWrap', 
+        'w:outlineLvl', 'w:divId', 'w:cnfStyle', 'w:rPr', 'w:sectPr', 'w:pPrChange')
+    for tag in ('w:autoSpaceDE', 'w:autoSpaceDN'):
+        xml = r'<{} {} w:val="0"/>'.format(tag, nsdecls('w'))
+        p._p.get_or_add_pPr().insert_element_before(parse_xml(xml), *successors)
 
     return pf
 
-- 
2.43.0


From f8b9c21399a5cfe4461bce79be0c508b39216b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 41/75] fix: indentation of tables is an integer, in the order
 required by the schema

---
 pdf2docx/common/docx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 343d5f3..f7733f5 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -319,9 +319,9 @@ def indent_table(table, indent:float):
     tbl_pr = table._element.xpath('w:tblPr')
     if tbl_pr:
         e = OxmlElement('w:tblInd')
-        e.set(qn('w:w'), str(20*indent)) # basic unit 1/20 pt for openxml 
+        e.set(qn('w:w'), str(int(round(20*indent)))) # basic unit 1/20 pt for openxml, integer only
         e.set(qn('w:type'), 'dxa')
-        tbl_pr[0].append(e)
+        tbl_pr[0].insert_element_before(e, 'w:tblBorders', 'w:shd', 'w:tblLayout', 'w:tblCellMar', 'w:tblLook')
 
 
 def set_cell_margins(cell:_Cell, **kwargs):
-- 
2.43.0


From a2f5c3806f14168e97a8c919722178893a0ffcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 42/75] fix: valid order, width and color of cell borders

---
 pdf2docx/common/docx.py | 6 +++---
 pdf2docx/table/Cell.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index f7733f5..abdf4a5 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -382,8 +382,8 @@ def set_cell_border(cell:_Cell, **kwargs):
     
         set_cell_border(
             cell,
-            top={"sz": 12, "val": "single", "color": "#FF0000", "space": "0"},
-            bottom={"sz": 12, "color": "#00FF00", "val": "single"},
+            top={"sz": 12, "val": "single", "color": "FF0000", "space": "0"},
+            bottom={"sz": 12, "color": "00FF00", "val": "single"},
             start={"sz": 24, "val": "dashed", "shadow": "true"},
             end={"sz": 12, "val": "dashed"},
         )
@@ -398,7 +398,7 @@ def set_cell_border(cell:_Cell, **kwargs):
         tcPr.append(tcBorders)
 
     # list over all available tags
-    for edge in ('start', 'top', 'end', 'bottom', 'insideH', 'insideV'):
+    for edge in ('top', 'start', 'bottom', 'end', 'insideH', 'insideV'):
         edge_data = kwargs.get(edge)
         if edge_data:
             tag = 'w:{}'.format(edge)
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 8a36ddd..95b7a21 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -201,9 +201,9 @@ class Cell(Element):
             # skip if width=0 -> will not show in docx
             if not w: continue
 
-            hex_c = f'#{hex(c)[2:].zfill(6)}'
+            hex_c = hex(c)[2:].zfill(6)
             kwargs[k] = {
-                'sz': 8*w, 'val': 'single', 'color': hex_c.upper()
+                'sz': max(1, round(8*w)), 'val': 'single', 'color': hex_c.upper()
             }
 
         # merged cells are assumed to have same borders with the main cell        
-- 
2.43.0


From 3bf42165d66c654c51c24514d3732e06abcbaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 43/75] fix: pattern of cell shading, which is required

---
 pdf2docx/common/docx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index abdf4a5..a444ad6 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -364,7 +364,7 @@ def set_cell_shading(cell:_Cell, srgb:int):
         srgb (int): RGB color value.
     '''
     c = hex(srgb)[2:].zfill(6)
-    cell._tc.get_or_add_tcPr().append(parse_xml(r'<w:shd {} w:fill="{}"/>'.format(nsdecls('w'), c)))
+    cell._tc.get_or_add_tcPr().append(parse_xml(r'<w:shd {} w:val="clear" w:color="auto" w:fill="{}"/>'.format(nsdecls('w'), c)))
 
 
 def set_cell_border(cell:_Cell, **kwargs):
-- 
2.43.0


From 09111ff12edec71c5111b1f19bbaf87f2d124b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 44/75] fix: character scaling is an integer percentage

---
 pdf2docx/common/docx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index a444ad6..b38ddfc 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -103,7 +103,9 @@ def set_char_scaling(p_run, scale:float=1.0):
         p_run (docx.text.run.Run): Proxy object wrapping <w:r> element.
         scale (float, optional): scaling factor. Defaults to 1.0.
     '''
-    p_run._r.get_or_add_rPr().insert(0, parse_xml(r'<w:w {} w:val="{}"/>'.format(nsdecls('w'), 100*scale)))
+    # integer percentage from 1 to 600 only
+    percent = min(600, max(1, round(100*scale)))
+    p_run._r.get_or_add_rPr().insert(0, parse_xml(r'<w:w {} w:val="{}"/>'.format(nsdecls('w'), percent)))
 
 
 def set_char_shading(p_run, srgb:int):
-- 
2.43.0


From 6dbb5c26b65cb6cd30f8c26564313054e7bee6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 45/75] fix: margins of merged cells only once

---
 pdf2docx/common/docx.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index b38ddfc..4ef79e9 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -343,16 +343,21 @@ def set_cell_margins(cell:_Cell, **kwargs):
     '''
     tc = cell._tc
     tcPr = tc.get_or_add_tcPr()
-    tcMar = OxmlElement('w:tcMar')
+
+    # one element only, e.g. merged cells refer to a same cell
+    tcMar = tcPr.first_child_found_in('w:tcMar')
+    if tcMar is None:
+        tcMar = OxmlElement('w:tcMar')
+        tcPr.append(tcMar)
  
     for m in ['top', 'start', 'bottom', 'end']:
         if m in kwargs:
-            node = OxmlElement("w:{}".format(m))
+            node = tcMar.find(qn("w:{}".format(m)))
+            if node is None:
+                node = OxmlElement("w:{}".format(m))
+                tcMar.append(node)
             node.set(qn('w:w'), str(kwargs.get(m)))
             node.set(qn('w:type'), 'dxa')
-            tcMar.append(node)
- 
-    tcPr.append(tcMar)
 
 
 def set_cell_shading(cell:_Cell, srgb:int):
-- 
2.43.0


From 04870dc605ad5ce6ff1be324624883248df18345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 46/75] fix: hyperlinks are children of paragraphs

---
 pdf2docx/common/docx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 4ef79e9..befe319 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -11,6 +11,7 @@ from docx.oxml.xmlchemy import BaseOxmlElement, OneAndOnlyOne
 from docx.enum.text import WD_COLOR_INDEX
 from docx.image.exceptions import UnrecognizedImageError
 from docx.table import _Cell
+from docx.text.run import Run
 from docx.opc.constants import RELATIONSHIP_TYPE
 
 from .share import rgb_value
@@ -175,7 +176,7 @@ def add_hyperlink(paragraph, url, text):
     hyperlink.set(qn('r:id'), r_id, )
     hyperlink.set(qn('w:history'), '1')
 
-    # Create a w:r element
+    # Create a run contained in the hyperlink
     new_run = OxmlElement('w:r')
 
     # Create a new w:rPr element
@@ -192,11 +193,10 @@ def add_hyperlink(paragraph, url, text):
     new_run.text = text
     hyperlink.append(new_run)
 
-    # Create a new Run object and add the hyperlink into it
-    r = paragraph.add_run()
-    r._r.append(hyperlink)
+    # hyperlink is a child of paragraph, i.e. not allowed in a run
+    paragraph._p.append(hyperlink)
 
-    return r
+    return Run(new_run, paragraph)
 
 
 # ---------------------------------------------------------
-- 
2.43.0


From 18d2e1419f8a3d9bd95252f63d2bfbaec8b4526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 47/75] fix: one shading and one underline for a run

---
 pdf2docx/common/docx.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index befe319..3f00e07 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -109,6 +109,18 @@ def set_char_scaling(p_run, scale:float=1.0):
     p_run._r.get_or_add_rPr().insert(0, parse_xml(r'<w:w {} w:val="{}"/>'.format(nsdecls('w'), percent)))
 
 
+def _set_run_property(p_run, element):
+    '''Set run property, replacing the existing one, e.g. when two shadings overlap.
+    
+    Args:
+        p_run (docx.text.run.Run): Proxy object wrapping <w:r> element.
+        element (BaseOxmlElement): Property element.
+    '''
+    rPr = p_run._r.get_or_add_rPr()
+    for e in rPr.findall(element.tag): rPr.remove(e)
+    rPr.insert(0, element)
+
+
 def set_char_shading(p_run, srgb:int):
     '''Set character shading color, in case the color is out of highlight color scope.
     
@@ -136,7 +148,7 @@ def set_char_shading(p_run, srgb:int):
     else:
         c = hex(srgb)[2:].zfill(6)
         xml = r'<w:shd {} w:val="clear" w:color="auto" w:fill="{}"/>'.format(nsdecls('w'), c)
-        p_run._r.get_or_add_rPr().insert(0, parse_xml(xml))
+        _set_run_property(p_run, parse_xml(xml))
 
 
 def set_char_underline(p_run, srgb:int):
@@ -148,7 +160,7 @@ def set_char_underline(p_run, srgb:int):
     '''
     c = hex(srgb)[2:].zfill(6)
     xml = r'<w:u {} w:val="single" w:color="{}"/>'.format(nsdecls('w'), c)
-    p_run._r.get_or_add_rPr().insert(0, parse_xml(xml))
+    _set_run_property(p_run, parse_xml(xml))
 
 
 def add_hyperlink(paragraph, url, text):
-- 
2.43.0


From 21cc4a0ed557817c29d6d3546d462470091cc019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 48/75] fix: position of drawings on rotated pages

---
 pdf2docx/page/RawPage.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 15893be..8073ea9 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -21,6 +21,7 @@ In addition to the raw layout dict, rectangle shapes are also included.
 '''
 
 from collections import defaultdict
+import fitz
 from ..image.ImagesExtractor import ImagesExtractor
 from ..shape.Paths import Paths
 from ..common.Element import Element
@@ -133,7 +134,7 @@ class RawPage:
     def _preprocess_shapes(self, raw):
         '''Identify iso-oriented paths and convert vector graphic paths to pixmap.'''
         # extract paths ed by `page.getDrawings()`
-        raw_paths = self.fitz_page.getDrawings()
+        raw_paths = self._source_paths(self.fitz_page)
 
         # iso-oriented paths to shapes
         paths = Paths(parent=self).restore(raw_paths)
@@ -155,6 +156,39 @@ class RawPage:
         return paths
     
 
+    @staticmethod
+    def _source_paths(page):
+        """Get source path dicts in real page CS, i.e. with page rotation considered.
+
+        Args:
+            page (fitz.Page): pdf page.
+
+        Returns:
+            list: A list of source path dict.
+        
+        .. note::
+            Recent versions of ``PyMuPDF`` provide coordinates relative to the un-rotated page, so always 
+            extract paths from the un-rotated page, and then apply the rotation.
+        """
+        rotation, matrix = page.rotation, page.rotationMatrix
+        if not rotation: return page.getDrawings()
+
+        page.setRotation(0)
+        try:
+            raw_paths = page.getDrawings()
+        finally:
+            page.setRotation(rotation)
+
+        def rotate(x):
+            return x * matrix if isinstance(x, (fitz.Point, fitz.Rect, fitz.Quad)) else x
+
+        for raw in raw_paths:
+            raw['rect'] = rotate(raw['rect'])
+            raw['items'] = [tuple(rotate(x) for x in item) for item in raw['items']]
+
+        return raw_paths
+
+
     @staticmethod
     def _preprocess_hyperlinks(page):
         """Get source hyperlink dicts.
-- 
2.43.0


From be18fa7fe8f3d34929109f82b785c59b600ee1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 49/75] fix: vector graphics on rotated pages

---
 pdf2docx/page/RawPage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8073ea9..73defad 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -144,9 +144,13 @@ class RawPage:
         # vector graphics (curved paths in general) to images
         if exist_svg:
             excluding_areas = iso_areas
-            excluding_areas.extend([block['bbox'] for block in raw['blocks'] if block['type']==1]) # normal images
+            # NOTE: blocks are relative to un-rotated page, while paths and pixmap to real page
+            matrix, inv_matrix = self.fitz_page.rotationMatrix, self.fitz_page.derotationMatrix
+            excluding_areas.extend([fitz.Rect(block['bbox'])*matrix \
+                for block in raw['blocks'] if block['type']==1]) # normal images
             images = ImagesExtractor.extract_vector_graphics(
                 self.fitz_page, excluding_areas, self.settings['clip_image_res_ratio'])
+            for image in images: image['bbox'] = tuple(fitz.Rect(image['bbox'])*inv_matrix)
             raw['blocks'].extend(images)
 
         # Hyperlink is considered as a Shape
-- 
2.43.0


From 79c9492d9c03d349bf663a8c6aa2b785262afa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 50/75] fix: position and count of images on rotated pages

---
 pdf2docx/page/RawPage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 73defad..7f963c2 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -89,8 +89,14 @@ class RawPage:
         * Get image location with ``page.getText('rawdict')`` -> ensure correct locations
         '''
         # recover image blocks
-        recovered_images = ImagesExtractor.extract_images(self.fitz_page, 
+        # NOTE: blocks in raw dict are relative to un-rotated page, so get images from un-rotated page, too
+        rotation = self.fitz_page.rotation
+        if rotation: self.fitz_page.setRotation(0)
+        try:
+            recovered_images = ImagesExtractor.extract_images(self.fitz_page, 
                                             self.settings['clip_image_res_ratio'])
+        finally:
+            if rotation: self.fitz_page.setRotation(rotation)
 
         # group original image blocks by image contents
         image_blocks_group = defaultdict(list)
-- 
2.43.0


From f66e57cace2c1419cc35ded0c9f7e291a66bb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 51/75] fix: hairlines, i.e. strokes with zero width, are not
 ignored

---
 pdf2docx/common/constants.py |  2 ++
 pdf2docx/shape/Path.py       | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/common/constants.py b/pdf2docx/common/constants.py
index 765f045..39ed7c5 100644
--- a/pdf2docx/common/constants.py
+++ b/pdf2docx/common/constants.py
@@ -11,6 +11,8 @@ MAJOR_DIST = 5.0 * PT   # significant distance exists between two block lines
 MINOR_DIST = 1.0 * PT   # small distance
 TINY_DIST  = 0.5 * PT   # very small distance
 
+HAIRLINE_WIDTH = 0.2 * PT # width of the thinnest line
+
 FACTOR_SAME = 0.99
 FACTOR_ALMOST = 0.95
 FACTOR_MOST = 0.90
diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 90abbc1..952ea79 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -219,7 +219,7 @@ class Path:
         # path segments
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
-        close_path, w = raw['closePath'], raw['width'] or 0.0 # no width if filled only
+        close_path, w = raw['closePath'], self.stroke_width # no width if filled only
         filled = raw.get('fill', None) is not None
         for segments in self._group_segments(raw['items']):
             S = Segments(segments, close_path, filled)
@@ -231,6 +231,13 @@ class Path:
             self.bbox |= rect
 
 
+    @property
+    def stroke_width(self):
+        '''Width of stroke. A width of zero, i.e. hairline, denotes the thinnest visible line.'''
+        if self.raw.get('color', None) is None: return 0.0
+        return max(self.raw.get('width', None) or 0.0, constants.HAIRLINE_WIDTH)
+
+
     @staticmethod
     def _group_segments(items):
         """Group connected segments.
@@ -309,7 +316,7 @@ class Path:
         """        
         stroke_color = self.raw.get('color', None)
         fill_color = self.raw.get('fill', None)
-        width = self.raw.get('width', 0.0)
+        width = self.stroke_width
 
         iso_shapes = []
 
-- 
2.43.0


From 68cb7fd7fbe8ea4c5ebc1627702f1d07c083c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 52/75] fix: tab stops of a third line in a row

---
 pdf2docx/text/Lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index da97958..6df07e2 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -354,6 +354,6 @@ class Lines(Collection):
             # update stop position            
             if line==self._instances[-1]: break
             if line.in_same_row(self._instances[i+1]):
-                current_pos = pos + abs(line.bbox[idx1]-block.bbox[idx0])
+                current_pos = block.left_space + abs(line.bbox[idx1]-block.bbox[idx0])
             else:
                 current_pos = block.left_space
\ No newline at end of file
-- 
2.43.0


From 3a3d23ebc9dcfa5617044d4cb9604677a06505a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 53/75] fix: the end of a line without blank separates words

---
 pdf2docx/text/Lines.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 6df07e2..0890a47 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -335,6 +335,20 @@ class Lines(Collection):
                 line.line_break = 0
 
 
+    @staticmethod
+    def _is_blank_missed(line, next_line):
+        '''Whether a blank is required between two lines in paragraph. It's not the case for scripts 
+        without blanks between words, e.g. CJK, or hyphenated words.
+        '''
+        def spaced(c): return not c.isspace() and (c<'\u0e00' or '\u1e00'<=c<'\u2e80')
+
+        span, next_span = line.spans[-1], next_line.spans[0]
+        if isinstance(span, ImageSpan) or isinstance(next_span, ImageSpan): return False
+
+        end, start = span.text[-1:], next_span.text[:1]
+        return bool(end and start) and spaced(end) and spaced(start) and end not in '-/\u00ad\u2010\u2014'
+
+
     def make_docx(self, p):
         '''Create lines in paragraph.'''
         block = self.parent        
@@ -345,8 +359,14 @@ class Lines(Collection):
         for i, line in enumerate(self._instances):
             # left indentation implemented with tab
             pos = block.left_space + (line.bbox[idx0]-block.bbox[idx0])
+            num_runs = len(p.runs)
             if pos>block.left_space and block.tab_stops: # sometimes set by first line indentation
                 add_stop(p, Pt(pos), Pt(current_pos))
+            
+            # the end of a line separates words, even if there's no blank in pdf
+            if i>0 and len(p.runs)==num_runs:
+                pre_line = self._instances[i-1]
+                if not pre_line.line_break and self._is_blank_missed(pre_line, line): p.add_run(' ')
 
             # add line
             line.make_docx(p)
-- 
2.43.0


From 69ff942b396dc48d00310e1c8d6136c73f607c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 54/75] fix: a single page number, e.g. --pages=0, is a valid
 selection in command line

---
 pdf2docx/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/main.py b/pdf2docx/main.py
index 0cc997d..b0d91f2 100644
--- a/pdf2docx/main.py
+++ b/pdf2docx/main.py
@@ -22,6 +22,9 @@ class PDF2DOCX:
         .. note::
             Refer to :py:meth:`~pdf2docx.converter.Converter.convert` for detailed description on above arguments.
         '''
+        # a single page, e.g. --pages=1
+        if isinstance(pages, int): pages = [pages]
+
         # index starts from zero or one
         if not kwargs.get('zero_based_index', True):
             start = max(start-1, 0)
@@ -64,6 +67,9 @@ class PDF2DOCX:
             end (int, optional): Last page to process. Defaults to None.
             pages (list, optional): Range of pages. Defaults to None.
         '''
+        # a single page, e.g. --pages=1
+        if isinstance(pages, int): pages = [pages]
+
         # index starts from zero or one
         if not kwargs.get('zero_based_index', True):
             start = max(start-1, 0)
-- 
2.43.0


From 113b38b971ed5253f28ade81280f43ed3ce49784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 55/75] fix: debug mode leaves the settings of the user as they
 are

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 01f2de8..c7e2e2c 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -163,7 +163,7 @@ class Converter:
             debug_pdf (str): New pdf file storing layout information. Default to add prefix ``debug_``.
             layout_file (str): New json file storing parsed layout data. Default to ``layout.json``.
         '''
-        kwargs = kwargs if kwargs else {}
+        kwargs = dict(kwargs) if kwargs else {} # keep settings of the user
 
         # include debug information
         # fitz object in debug mode: plot page layout
-- 
2.43.0


From 79738d53356faf21547ab56db550d04b086287d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 56/75] fix: images rotated or mirrored in the page are shown
 so

---
 pdf2docx/image/ImagesExtractor.py | 59 ++++++++++++++++++++++++++++++-
 pdf2docx/page/RawPage.py          |  6 ++++
 2 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 1f0c837..2f12db7 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -37,6 +37,12 @@ class ImagesExtractor:
         # pdf document
         doc = page.parent
 
+        # all images shown, including those beyond the page, with their transformation
+        shown = [block for block in page.getText('dict', 
+                    clip=fitz.Rect(-1e5, -1e5, 1e5, 1e5), 
+                    flags=fitz.TEXT_PRESERVE_IMAGES)['blocks'] \
+                        if block['type']==1 and 'transform' in block]
+
         # check each image item:
         # (xref, smask, width, height, bpc, colorspace, ...)
         images = []
@@ -60,14 +66,65 @@ class ImagesExtractor:
             # the turquoise color shown in the PDF is not part of the image, but part of PDF background.
             # So, just to clip page pixmap according to the right bbox
             # https://github.com/pymupdf/PyMuPDF/issues/677
-            if not pix.colorspace:
+            clipped = not pix.colorspace
+            if clipped:
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
 
             raw_dict = cls._to_raw_dict(pix, bbox)
+            raw_dict['clipped'] = clipped
+            for block in shown:
+                if all(abs(a-b)<0.1 for a,b in zip(bbox, block['bbox'])):
+                    raw_dict['transform'] = block['transform']
+                    break
             images.append(raw_dict)
         return images
     
 
+    @classmethod
+    def orient_image(cls, page:fitz.Page, raw_dict:dict, clip_image_res_ratio:float=3.0):
+        """Make the pixels of an image upright, since it may be rotated or mirrored when shown on the page.
+
+        Args:
+            page (fitz.Page): pdf page where the image is.
+            raw_dict (dict): Image raw dict, relative to un-rotated page, to update in place.
+            clip_image_res_ratio (float, optional): Resolution ratio of clipped bitmap. Defaults to 3.0.
+        """
+        # image space -> real page; NOTE: pixels clipped from the un-rotated page need no transformation to it
+        if raw_dict.get('clipped', False):
+            matrix = page.rotationMatrix
+        elif 'transform' in raw_dict:
+            matrix = fitz.Matrix(raw_dict['transform']) * page.rotationMatrix
+        else:
+            return
+        a, b, c, d = tuple(matrix)[:4]
+        tolerance = 0.02 * max(abs(v) for v in (a, b, c, d))
+
+        # neither horizontal nor vertical: show what the page shows
+        if max(abs(b), abs(c))>tolerance and max(abs(a), abs(d))>tolerance:
+            bbox = fitz.Rect(raw_dict['bbox']) * page.rotationMatrix & page.rect
+            if bbox.isEmpty: return
+            pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
+            raw_dict.update(cls._to_raw_dict(pix, bbox * page.derotationMatrix))
+            return
+
+        # rotated by 90 degree, and/or mirrored
+        transposed = max(abs(b), abs(c))>tolerance
+        x_flip, y_flip = (c<0, b<0) if transposed else (a<0, d<0)
+        if not (transposed or x_flip or y_flip): return
+
+        import cv2 as cv
+        import numpy as np
+        img = cv.imdecode(np.frombuffer(raw_dict['image'], np.uint8), cv.IMREAD_UNCHANGED)
+        if transposed: img = cv.transpose(img)
+        if x_flip: img = cv.flip(img, 1)
+        if y_flip: img = cv.flip(img, 0)
+        raw_dict.update({
+            'width': img.shape[1],
+            'height': img.shape[0],
+            'image': cv.imencode('.png', img)[1].tobytes()
+        })
+
+
     @classmethod
     def extract_vector_graphics(cls, page:fitz.Page, exclude_areas:list, clip_image_res_ratio:float=3.0):
         """Detect and extract vector graphics by clipping associated page area.
diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 7f963c2..a43f71b 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -134,6 +134,12 @@ class RawPage:
                 if not image_block is current and image_block['type']==1: continue
                 image_block['type'] = 1 # add it back
                 image_block['image'] = image['image']
+                image_block['clipped'] = image['clipped']
+
+        # images may be rotated or mirrored in page
+        for block in raw['blocks']:
+            if block['type']==1:
+                ImagesExtractor.orient_image(self.fitz_page, block, self.settings['clip_image_res_ratio'])
 
 
     @debug_plot('Source Paths')
-- 
2.43.0


From 102d7035ae64575e64041b8d3d8eecd54ed0558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:15 +0000
Subject: [PATCH 57/75] fix: lines are never assigned to a released block with
 same memory address

---
 pdf2docx/text/Lines.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 0890a47..add0063 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -3,6 +3,7 @@
 '''A group of Line objects.
 '''
 
+from itertools import count
 from docx.shared import Pt
 from .Line import Line
 from ..image.ImageSpan import ImageSpan
@@ -15,6 +16,11 @@ from ..common import constants
 class Lines(Collection):
     '''Collection of text lines.'''
 
+    # ID of the parent block. NOTE: don't use ``id()`` of the block itself, because
+    # it may be reused for another block once this block is released.
+    _pid = None
+    _next_pid = count(1)
+
     @property
     def unique_parent(self):
         '''Whether all contained lines have same parant.'''
@@ -34,7 +40,8 @@ class Lines(Collection):
 
         # update original parent id
         if not self._parent is None:
-            line.pid = id(self._parent)
+            if self._pid is None: self._pid = next(Lines._next_pid)
+            line.pid = self._pid
 
 
     def restore(self, raws:list):
-- 
2.43.0


From f6a11af6232815434994f6e57d5e8bfdc21d856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:58 +0000
Subject: [PATCH 58/75] fix: a borderless table starts below the lowest block
 above it, not the last one

---
 pdf2docx/table/TablesConstructor.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 14adada..e799e47 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -213,13 +213,11 @@ class TablesConstructor:
             '''
             y_lower, y_upper = Y0, Y1
             for block in self._blocks:
-                # move top border
-                if block.bbox.y1 < y0: y_lower = block.bbox.y1
-
-                # reach first bottom border
-                if block.bbox.y0 > y1:
-                    y_upper = block.bbox.y0
-                    break
+                # NOTE: the last block above isn't always the lowest one, e.g. side by side blocks
+                if block.bbox.y1 < y0: 
+                    y_lower = max(y_lower, block.bbox.y1)
+                elif block.bbox.y0 > y1:
+                    y_upper = min(y_upper, block.bbox.y0)
             return y_lower, y_upper
 
         # parse tables
-- 
2.43.0


From a1d19b77e7a2d38c760f028e02c7147d99b20d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:19 +0000
Subject: [PATCH 59/75] fix: a block next to a higher one belongs to the same
 row of a borderless table

---
 pdf2docx/page/Blocks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 3871f7a..89f0c83 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -9,6 +9,7 @@ from ..common import constants
 from ..common.Collection import Collection
 from ..common.share import BlockType, rgb_value
 from ..common.Block import Block
+from ..common.Element import Element
 from ..common.docx import reset_paragraph_format
 from ..text.TextBlock import TextBlock
 from ..text.Line import Line
@@ -270,6 +271,7 @@ class Blocks(Collection):
         j = 0
         table_lines = Lines() # potential text lines in a table
         new_line = True
+        row = Element() # region of the blocks in current row
         num_blocks, num_shadings = len(self._instances), len(shadings_exclude_white)
         for i in range(num_blocks):
 
@@ -298,7 +300,10 @@ class Blocks(Collection):
 
             # (c) multi-blocks are in a same row: check layout with next block?
             # yes, add both current and next blocks
-            if block.horizontally_align_with(next_block, factor=0):
+            # NOTE: a block earlier in this row may be higher than current one
+            row.union_bbox(block)
+            if block.horizontally_align_with(next_block, factor=0) or \
+                block.is_horizontal_text and row.horizontally_align_with(next_block, factor=0):
                 # if it's start of new table row: add the first block
                 if new_line: table_lines.extend(sub_lines(block))
                 
@@ -315,6 +320,7 @@ class Blocks(Collection):
 
                 # update line status            
                 new_line = True
+                row = Element()
 
             # NOTE: close table detecting manually if last block
             if i==num_blocks-1: table_end = True
-- 
2.43.0


From 7f3507cda3f16c744d9e3ccebcd3ccd61d882014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:05 +0000
Subject: [PATCH 60/75] fix: contents at the border of table cells belong to
 exactly one cell

---
 pdf2docx/image/ImageSpan.py  |  6 +++---
 pdf2docx/table/Cell.py       | 20 +++++++++++++-------
 pdf2docx/table/TableBlock.py | 14 +++++++++++++-
 pdf2docx/text/TextSpan.py    |  3 ++-
 4 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/pdf2docx/image/ImageSpan.py b/pdf2docx/image/ImageSpan.py
index 9c8e456..17d0b94 100644
--- a/pdf2docx/image/ImageSpan.py
+++ b/pdf2docx/image/ImageSpan.py
@@ -3,7 +3,7 @@
 '''Image span based on same raw data structure with Image block.
 '''
 
-from ..common import constants
+import fitz
 from .Image import Image
 
 
@@ -22,8 +22,8 @@ class ImageSpan(Image):
         Returns:
             ImageSpan: A copy of itself if intersects with target; otherwise empty ImageSpan. 
         '''
-        # add image span if most of of the image is contained in bbox
-        if self.get_main_bbox(rect, constants.FACTOR_MAJOR):
+        # add image span if its center is contained in bbox -> belongs to one of adjacent regions only
+        if fitz.Rect(rect).contains((self.bbox.tl+self.bbox.br)/2.0):
             return self.copy()
         
         # otherwise, ignore image
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 95b7a21..02c576d 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -93,38 +93,44 @@ class Cell(Element):
         self.layout.blocks.plot(page)
 
 
-    def assign_blocks(self, blocks:list):
+    def assign_blocks(self, blocks:list, region=None):
         '''Add blocks to this cell. 
         
         Args:
             blocks (list): a list of text/table block to add.
+            region (fitz.Rect, optional): Region taken by this cell. Cell bbox by default.
         
         .. note::
             If a text block is partly contained in a cell, it must deep into line -> span -> char.
         '''
-        for block in blocks: self._assign_block(block)
+        region = region or self.bbox
+        for block in blocks: self._assign_block(block, region)
     
 
-    def _assign_block(self, block):
+    def _assign_block(self, block, region):
         '''Add block to this cell. 
         
         Args:
             block (TextBlock, TableBlock): Text/table block to add. 
+            region (fitz.Rect): Region taken by this cell.
         '''
         # add block directly if fully contained in cell
-        if self.contains(block, constants.FACTOR_ALMOST):
+        if region.contains(block.bbox):
             self.layout.blocks.append(block)
             return
         
         # add nothing if no intersection
-        if not self.intersection(block.bbox): return
+        if not region.intersects(block.bbox): return
 
         # otherwise, further check lines in text block
-        if not block.is_text_image_block():  return
+        if not block.is_text_image_block():
+            if self.contains(block, constants.FACTOR_ALMOST): self.layout.blocks.append(block)
+            return
         
         # NOTE: add each line as a single text block to avoid overlap between table block and combined lines
+        # NOTE: no matter how small the part in adjacent cell is, it's assigned to that cell only
         split_block = TextBlock()
-        lines = [line.intersects(self.bbox) for line in block.lines]
+        lines = [line.intersects(region) for line in block.lines]
         split_block.add(lines)
         self.layout.blocks.append(split_block)
 
diff --git a/pdf2docx/table/TableBlock.py b/pdf2docx/table/TableBlock.py
index 51f2476..6bb14cf 100644
--- a/pdf2docx/table/TableBlock.py
+++ b/pdf2docx/table/TableBlock.py
@@ -31,6 +31,7 @@ Data Structure::
 '''
 
 
+import fitz
 from .Row import Row
 from .Rows import Rows
 from ..common.Block import Block
@@ -107,10 +108,21 @@ class TableBlock(Block):
         Args:
             blocks (list): A list of text/table blocks.
         '''
+        # outer cells take contents protruding from table as well
+        x0, y0, x1, y1 = self.bbox
+        X0 = min(x0, *(block.bbox.x0 for block in blocks))
+        Y0 = min(y0, *(block.bbox.y0 for block in blocks))
+        X1 = max(x1, *(block.bbox.x1 for block in blocks))
+        Y1 = max(y1, *(block.bbox.y1 for block in blocks))
+
         for row in self._rows:
             for cell in row:
                 if not cell: continue
-                cell.assign_blocks(blocks)
+                a0, b0, a1, b1 = cell.bbox
+                region = fitz.Rect(
+                    X0 if a0<=x0 else a0, Y0 if b0<=y0 else b0,
+                    X1 if a1>=x1 else a1, Y1 if b1>=y1 else b1)
+                cell.assign_blocks(blocks, region)
 
 
     def assign_shapes(self, shapes:list):
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 96b5366..ffcfa94 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -370,7 +370,8 @@ class TextSpan(Element):
         span.update_bbox((0.0,0.0,0.0,0.0))
 
         for char in self.chars:
-            if char.get_main_bbox(rect, constants.FACTOR_A_HALF): # contains at least a half part
+            # contains at least a half part -> belongs to one of adjacent regions only
+            if rect.contains((char.bbox.tl+char.bbox.br)/2.0):
                 span.chars.append(char)
                 span.union_bbox(char)
 
-- 
2.43.0


From f2b3e8f271f0d0bd98fefd3383500191d28c1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:44 +0000
Subject: [PATCH 61/75] fix: a table across the cells of another table is never
 lost

---
 pdf2docx/table/Cell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 02c576d..d889ee3 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -5,7 +5,7 @@
 
 from docx.shared import Pt
 from ..common.Element import Element
-from ..common import docx, constants
+from ..common import docx
 from ..text.TextBlock import TextBlock
 from ..page import Layout # avoid import conflict
 
@@ -124,7 +124,8 @@ class Cell(Element):
 
         # otherwise, further check lines in text block
         if not block.is_text_image_block():
-            if self.contains(block, constants.FACTOR_ALMOST): self.layout.blocks.append(block)
+            # NOTE: a table can't be split, so add it to the cell containing its center
+            if region.contains((block.bbox.tl+block.bbox.br)/2.0): self.layout.blocks.append(block)
             return
         
         # NOTE: add each line as a single text block to avoid overlap between table block and combined lines
-- 
2.43.0


From 231c526dea7a1a76dc7f514651816a8088504d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:21 +0000
Subject: [PATCH 62/75] fix: lines in the region of two overlapped tables
 belong to one of them

---
 pdf2docx/page/Blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 89f0c83..e029232 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -613,6 +613,9 @@ class Blocks(Collection):
                 # lines not in table for further check
                 if not_table_lines:
                     lines = not_table_lines
+                    # NOTE: lines already added to this table never go to another (overlapped) table
+                    block = TextBlock()
+                    block.add(lines)
                 else:
                     break # no more lines
         
-- 
2.43.0


From 374f891306e2d999c26732b2209116f4129c6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:16 +0000
Subject: [PATCH 63/75] fix: a line of which most is in a ruled table belongs
 to the table

A line of text close to the top border reaches over it by more than 10 % of its
height, e.g. in tables made by LaTeX: it was put before the table.
---
 pdf2docx/page/Blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index e029232..90fa1ac 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -603,7 +603,7 @@ class Blocks(Collection):
             
             # deep into line level for text block
             elif block.is_text_image_block():
-                table_lines, not_table_lines = lines.split_with_intersection(table.bbox, constants.FACTOR_MOST)
+                table_lines, not_table_lines = lines.split_with_intersection(table.bbox, constants.FACTOR_A_HALF)
 
                 # add lines to table
                 text_block = TextBlock()
-- 
2.43.0


From b5848ae082fd327cb97140f001a055224abfc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:16 +0000
Subject: [PATCH 64/75] fix: parts of a line in table cells keep the source
 block

All parts of lines cut by the borders of a cell were taken as one text block, which
mixed up the order with complete lines between them.
---
 pdf2docx/text/Line.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 3b8d944..4419834 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -168,6 +168,7 @@ class Line(Element):
         # new line with same text attributes
         line = Line({'wmode': self.wmode})
         line.dir = self.dir # update line direction relative to final CS
+        if self.pid is not None: line.pid = self.pid # still from the same text block
         for span in self.spans:
             contained_span = span.intersects(rect)
             line.add(contained_span)
-- 
2.43.0


From 027452bc36fbd16614734a57a947d969c7f1adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:16 +0000
Subject: [PATCH 65/75] fix: blanks between the texts of two cells belong to
 none of them

PyMuPDF joins texts of adjacent cells to one line with a blank between, which was put
to the second cell: text shifted to the border, wrong height of line, and alignment.
---
 pdf2docx/text/Line.py  |  3 +++
 pdf2docx/text/Spans.py | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 4419834..0898bc9 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -173,6 +173,9 @@ class Line(Element):
             contained_span = span.intersects(rect)
             line.add(contained_span)
 
+        # NOTE: blanks at the cut just bridge the gap to the text of adjacent region
+        line.spans.trim()
+
         return line
 
 
diff --git a/pdf2docx/text/Spans.py b/pdf2docx/text/Spans.py
index 54600a3..00af8f3 100644
--- a/pdf2docx/text/Spans.py
+++ b/pdf2docx/text/Spans.py
@@ -50,4 +50,19 @@ class Spans(Collection):
         # update bbox
         if stripped: self._parent.update_bbox(self.bbox)
 
-        return stripped
\ No newline at end of file
+        return stripped
+
+
+    def trim(self):
+        '''Remove all blanks at the begin/end, e.g. of a part of line.'''
+        for idx in (0, -1):
+            while self._instances and isinstance(self._instances[idx], TextSpan):
+                span = self._instances[idx]
+                while span.chars and span.chars[idx].c==' ': span.chars.pop(idx)
+                if span.chars:
+                    span.update_bbox(span.cal_bbox())
+                    break
+                self._instances.pop(idx)
+
+        # update bbox
+        self._parent.update_bbox(self.bbox)
-- 
2.43.0


From 45663a0e554965b1ed0b9ac34420b00606da9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:16 +0000
Subject: [PATCH 66/75] fix: direction of the first line indentation in
 vertical text

---
 pdf2docx/text/TextBlock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index b2e4e1b..a563047 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -372,10 +372,10 @@ class TextBlock(Block):
         if left_aligned and right_aligned:
             # need further external check if two lines only
             if len(rows) < 3: return TextAlignment.UNKNOWN
-            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]) * f
             return TextAlignment.JUSTIFY
         elif left_aligned:
-            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]) * f
             return TextAlignment.LEFT
         elif right_aligned:
             return TextAlignment.RIGHT
-- 
2.43.0


From 719f3b54d09b3e7201cf08e228d7901b99db9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:16 +0000
Subject: [PATCH 67/75] fix: lines aren't justified if the last one is longer
 than the others

---
 pdf2docx/text/TextBlock.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index a563047..338bc56 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -369,7 +369,10 @@ class TextBlock(Block):
         right_aligned  = abs(max(X1)-min(X1))<=lines_right_aligned_threshold
         center_aligned = abs(max(X)-min(X))<=lines_center_aligned_threshold # coarse margin for center alignment
 
-        if left_aligned and right_aligned:
+        # NOTE: the last line is never longer than the others if justified
+        longer = (rows[-1][-1].bbox[idx1]-rows[-2][-1].bbox[idx1])*f > lines_right_aligned_threshold
+
+        if left_aligned and right_aligned and not longer:
             # need further external check if two lines only
             if len(rows) < 3: return TextAlignment.UNKNOWN
             self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]) * f
-- 
2.43.0


From 10fd3aa57c4fbb276754ed8ba675b9acd92212ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:24 +0000
Subject: [PATCH 68/75] fix: marks exceeding the edge of a table belong to the
 text in its cells

Highlights, underlines and links of text close to the edge of a ruled table were
left in the layout around the table, where no text is.
---
 pdf2docx/shape/Shapes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Shapes.py b/pdf2docx/shape/Shapes.py
index fd5aefa..0ffe5b1 100644
--- a/pdf2docx/shape/Shapes.py
+++ b/pdf2docx/shape/Shapes.py
@@ -215,6 +215,12 @@ class Shapes(Collection):
         """
         if not tables: return
 
+        # NOTE: a mark of text close to the table edge may exceed it
+        def belongs_to(shape, bbox):
+            return bbox.contains(shape.bbox) or \
+                shape.bbox.width<=bbox.width and shape.bbox.height<=bbox.height and \
+                bbox.contains((shape.bbox.tl+shape.bbox.br)/2.0)
+
         # assign shapes to table region        
         shapes_in_tables = [[] for _ in tables] # type: list[list[Shape]]
         shapes = []   # type: list[Shape]
@@ -226,7 +232,7 @@ class Shapes(Collection):
 
             for table, shapes_in_table in zip(tables, shapes_in_tables):
                 # fully contained in one table
-                if table.bbox.contains(shape.bbox):
+                if belongs_to(shape, table.bbox):
                     shapes_in_table.append(shape)
                     break
 
-- 
2.43.0


From 87dbcf066314e8cfec6bc60b1c19fb46c3e67418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:24 +0000
Subject: [PATCH 69/75] fix: a hyperlink doesn't apply to lines its hot area
 just touches

The hot area generally exceeds the line a little, e.g. by 1 pt as made by hyperref, so
the characters above and below got the link too.
---
 pdf2docx/text/TextSpan.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ffcfa94..01853e1 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -224,6 +224,11 @@ class TextSpan(Element):
         # no, then add this span as it is
         if not intsec: return [self]
 
+        # NOTE: the hot area of a hyperlink may exceed its line, so exclude spans it just touches
+        if rect.type==RectType.HYPERLINK:
+            height = lambda bbox: bbox.height if horizontal else bbox.width
+            if height(intsec) < 0.5*min(height(rect.bbox), height(self.bbox)): return [self]
+
         # yes, then split spans:
         # - add new style to the intersection part
         # - keep the original style for the rest
-- 
2.43.0


From 92b1bcef383f08a3088a402246770259599968d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:24 +0000
Subject: [PATCH 70/75] fix: a highlight doesn't apply to the next line it just
 touches

The type of the shape set by one line was taken for granted by the next one.
---
 pdf2docx/text/TextSpan.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 01853e1..a70f8ea 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -318,6 +318,9 @@ class TextSpan(Element):
         idx = 1 if horizontal else 0
 
         # recognize text format based on rect and the span it applying to
+        # NOTE: don't refer to current type of rect, which may apply to another line only
+        rect_type = RectType.UNDEFINED
+
         # region height
         h_rect = rect.bbox[idx+2] - rect.bbox[idx]
         h_span = self.bbox[idx+2] - self.bbox[idx]
@@ -329,22 +332,19 @@ class TextSpan(Element):
         if h_rect >= 0.5*h_span:
             # In general, highlight color isn't white
             if rect.color != share.rgb_value((1,1,1)) and self.get_main_bbox(rect, constants.FACTOR_MAJOR): 
-                rect.type = RectType.HIGHLIGHT
+                rect_type = RectType.HIGHLIGHT
     
         # near to bottom of span? yes, underline
         elif d <= 0.25*h_span:
-            rect.type = RectType.UNDERLINE
+            rect_type = RectType.UNDERLINE
 
         # near to center of span? yes, strike-through-line
         elif 0.35*h_span < d < 0.75*h_span:
-            rect.type = RectType.STRIKE
+            rect_type = RectType.STRIKE
 
         # unknown style
-        else:
-            rect.type = RectType.UNDEFINED
-
-        # check rect type again
-        if rect.type==RectType.UNDEFINED: return False
+        if rect_type==RectType.UNDEFINED: return False
+        rect.type = rect_type
 
         style =  {
             'type': rect.type.value,
-- 
2.43.0


From 3610d12e157dd9a5e56fe0c464e52a178c66e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:27 +0000
Subject: [PATCH 71/75] fix: a rule over some columns of a borderless table
 isn't shown in all of them

---
 pdf2docx/table/Border.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/table/Border.py b/pdf2docx/table/Border.py
index e575578..6d31dc9 100644
--- a/pdf2docx/table/Border.py
+++ b/pdf2docx/table/Border.py
@@ -188,12 +188,17 @@ class Border:
         # skip if not in valid range of a border
         if not self.is_valid(value): return
 
-        # skip if not span in the border direction
-        if low_pos > self._LBorder.URange and upper_pos < self._UBorder.LRange: return
-
         # now, finalize current border
-        # NOTE: set border properties only if finalized by value successfully
-        if self.finalize_by_value(value):
+        # NOTE: any stroke in valid range determines the position, to align borders in same row/column, but
+        # only the one spanning in the border direction is shown
+        x0, x1 = self._LBorder.value, self._UBorder.value
+        spanning = min(upper_pos, x1)-max(low_pos, x0) >= constants.FACTOR_A_HALF*abs(x1-x0)
+        if not spanning and self.is_reference: return
+        finalized = self.finalize_by_value(value)
+        if not spanning: return
+
+        # NOTE: set border properties only if finalized at this position
+        if finalized or (self.width==constants.HIDDEN_W_BORDER and abs(self.value-value)<=constants.MINOR_DIST):
             self.color = stroke.color
             self.width = stroke.width
             stroke.type = RectType.BORDER  # update rect type as table border
-- 
2.43.0


From 4ff6ec1521ec3ea59634f43c1587f3117c7378af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:27 +0000
Subject: [PATCH 72/75] fix: backgrounds of several cells are kept in each of
 them

---
 pdf2docx/shape/Shapes.py | 12 +++++++++---
 pdf2docx/table/Cell.py   | 20 ++++++++++++++++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/shape/Shapes.py b/pdf2docx/shape/Shapes.py
index 0ffe5b1..f9b3bdb 100644
--- a/pdf2docx/shape/Shapes.py
+++ b/pdf2docx/shape/Shapes.py
@@ -6,7 +6,7 @@
 from .Shape import Shape, Stroke, Fill, Hyperlink
 from ..common.share import RectType, lazyproperty
 from ..common.Collection import Collection
-from ..common import share
+from ..common import constants, share
 
 
 class Shapes(Collection):
@@ -215,11 +215,13 @@ class Shapes(Collection):
         """
         if not tables: return
 
-        # NOTE: a mark of text close to the table edge may exceed it
+        # NOTE: a mark of text close to the table edge, or the background of a row, may exceed the table
         def belongs_to(shape, bbox):
             return bbox.contains(shape.bbox) or \
                 shape.bbox.width<=bbox.width and shape.bbox.height<=bbox.height and \
-                bbox.contains((shape.bbox.tl+shape.bbox.br)/2.0)
+                bbox.contains((shape.bbox.tl+shape.bbox.br)/2.0) or \
+                isinstance(shape, Fill) and bbox.intersects(shape.bbox) and \
+                (bbox & shape.bbox).getArea() >= constants.FACTOR_A_HALF*shape.bbox.getArea()
 
         # assign shapes to table region        
         shapes_in_tables = [[] for _ in tables] # type: list[list[Shape]]
@@ -228,6 +230,10 @@ class Shapes(Collection):
             # exclude explicit table borders which belongs to current layout
             if shape.type in (RectType.BORDER, RectType.SHADING):
                 shapes.append(shape)
+                # NOTE: a background of several cells may be the shading of some of them only
+                if not isinstance(shape, Fill): continue
+                for table, shapes_in_table in zip(tables, shapes_in_tables):
+                    if belongs_to(shape, table.bbox): shapes_in_table.append(shape)
                 continue
 
             for table, shapes_in_table in zip(tables, shapes_in_tables):
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index d889ee3..dd50fc1 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -5,7 +5,8 @@
 
 from docx.shared import Pt
 from ..common.Element import Element
-from ..common import docx
+from ..common import constants, docx
+from ..shape.Shape import Fill
 from ..text.TextBlock import TextBlock
 from ..page import Layout # avoid import conflict
 
@@ -144,7 +145,22 @@ class Cell(Element):
         '''
         # add shape if contained in cell
         for shape in shapes:
-            if self.intersection(shape.bbox): self.layout.shapes.append(shape)
+            bbox = self.intersection(shape.bbox)
+            if not bbox: continue
+
+            # NOTE: a fill extending over several cells is shared by them, so add the part in this cell only
+            is_background = bbox.getArea() >= constants.FACTOR_A_HALF*self.bbox.getArea()
+            if isinstance(shape, Fill) and shape.is_determined:
+                # NOTE: the shading of other cells matters only if it's the background of this cell as well
+                if self.bg_color is not None or not is_background: continue
+                shape = Fill({'bbox': tuple(bbox), 'color': shape.color})
+            elif isinstance(shape, Fill) and not self.bbox.contains(shape.bbox) and \
+                (is_background or bbox.height >= constants.FACTOR_A_HALF*shape.bbox.height):
+                # NOTE: too narrow part would be a border or an underline
+                if min(bbox.width, bbox.height) <= constants.MINOR_DIST: continue
+                shape = Fill({'bbox': tuple(bbox), 'color': shape.color})
+
+            self.layout.shapes.append(shape)
         self.layout.shapes.detect_initial_categories()
 
 
-- 
2.43.0


From cbc730eb84eb76bdb74905d52389fcae1ef7e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:27 +0000
Subject: [PATCH 73/75] fix: no missing outer borders beside overlapping ones

---
 pdf2docx/table/TableStructure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 7eb4bcb..dba555a 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -536,19 +536,20 @@ class TableStructure:
 
             occupied = [(border.bbox[idx_start], 
                         border.bbox[idx_end]) for border in borders[current]]
-            occupied.append((bbox[idx_end], None)) # end point
+            occupied.append((bbox[idx_end], bbox[idx_end])) # end point
             start = bbox[idx_start] # start point
             segments = []
             for (left, right) in occupied:
                 end = left
                 # not connected -> add missing border segment
-                if abs(start-end)>constants.MINOR_DIST:
+                # NOTE: the borders may overlap, in which case nothing is missing
+                if end-start>constants.MINOR_DIST:
                     bbox[idx_start] = start
                     bbox[idx_start+2] = end
                     segments.append(sample_border.copy().update_bbox(bbox))
                 
                 # update ref position
-                start = right
+                start = max(start, right)
             
             borders[current].extend(segments)
 
-- 
2.43.0


From de5a970e9ca65c0eca98af77fa0b89c9dd397c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:34 +0000
Subject: [PATCH 74/75] fix: a rule beside a borderless table column isn't
 shown in distant ones

---
 pdf2docx/table/Border.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/table/Border.py b/pdf2docx/table/Border.py
index 6d31dc9..13a5918 100644
--- a/pdf2docx/table/Border.py
+++ b/pdf2docx/table/Border.py
@@ -189,13 +189,12 @@ class Border:
         if not self.is_valid(value): return
 
         # now, finalize current border
-        # NOTE: any stroke in valid range determines the position, to align borders in same row/column, but
-        # only the one spanning in the border direction is shown
-        x0, x1 = self._LBorder.value, self._UBorder.value
-        spanning = min(upper_pos, x1)-max(low_pos, x0) >= constants.FACTOR_A_HALF*abs(x1-x0)
-        if not spanning and self.is_reference: return
+        # NOTE: any stroke in valid range determines the position to align borders in same row/column, but
+        # it's shown only if the stroke may extend to this border
+        connected = low_pos <= self._UBorder.URange and upper_pos >= self._LBorder.LRange
+        if not connected and self.is_reference: return
         finalized = self.finalize_by_value(value)
-        if not spanning: return
+        if not connected: return
 
         # NOTE: set border properties only if finalized at this position
         if finalized or (self.width==constants.HIDDEN_W_BORDER and abs(self.value-value)<=constants.MINOR_DIST):
-- 
2.43.0


From 510c9fdadd27a7e69408c81ca96a0c6403f95af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:55 +0000
Subject: [PATCH 75/75] fix: a border aligned with a distant rule may still
 have its own one

---
 pdf2docx/table/Border.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/table/Border.py b/pdf2docx/table/Border.py
index 13a5918..270fda1 100644
--- a/pdf2docx/table/Border.py
+++ b/pdf2docx/table/Border.py
@@ -66,6 +66,9 @@ class Border:
         # the position to be finalized, e.g. y-coordinate for horizontal border
         self._value = None
         
+        # whether finalized by a stroke which doesn't belong to this border
+        self._is_aligned = False
+
         # border style
         self.width = constants.HIDDEN_W_BORDER
         self.color = 0 # black by default
@@ -194,10 +197,13 @@ class Border:
         connected = low_pos <= self._UBorder.URange and upper_pos >= self._LBorder.LRange
         if not connected and self.is_reference: return
         finalized = self.finalize_by_value(value)
-        if not connected: return
+        if not connected:
+            self._is_aligned = self._is_aligned or finalized
+            return
 
-        # NOTE: set border properties only if finalized at this position
-        if finalized or (self.width==constants.HIDDEN_W_BORDER and abs(self.value-value)<=constants.MINOR_DIST):
+        # NOTE: set border properties only if finalized by value successfully, or just aligned to it so far
+        if finalized or (self._is_aligned and abs(self.value-value)<=constants.MINOR_DIST):
+            self._is_aligned = False
             self.color = stroke.color
             self.width = stroke.width
             stroke.type = RectType.BORDER  # update rect type as table border
-- 
2.43.0

