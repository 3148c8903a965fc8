From e38f739039ad5d1d6e93f843c02d0a93f87bf26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 01/45] fix: CommonPicture: write the picture entry back when
 no picture file was extracted

---
 src/v8unpack/MetaDataObject/CommonPicture.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/CommonPicture.py b/src/v8unpack/MetaDataObject/CommonPicture.py
index 3f1c8e9..3254f3b 100644
--- a/src/v8unpack/MetaDataObject/CommonPicture.py
+++ b/src/v8unpack/MetaDataObject/CommonPicture.py
@@ -32,12 +32,14 @@ class CommonPicture(Simple):
     def encode_object(self, src_dir, file_name, dest_dir):
         super().encode_object(src_dir, file_name, dest_dir)
 
+        if 'info' not in self.header:
+            return
         extension = helper.get_extension_from_comment(self.header['comment'])
         try:
             bin_data = helper.bin_read(src_dir, f'{file_name}.{extension}')
             self.header['info'][0][2][0][0] += b64encode(bin_data).decode(encoding='utf-8')
-            file_name = f'{self.header["uuid"]}.0'
-            helper.brace_file_write(self.header['info'], dest_dir, file_name)
-            self.file_list.append(file_name)
         except FileNotFoundError:
-            pass
+            pass  # картинка без данных
+        file_name = f'{self.header["uuid"]}.0'
+        helper.brace_file_write(self.header['info'], dest_dir, file_name)
+        self.file_list.append(file_name)
-- 
2.43.0


From 2605dd02e6dd40bee9e0b731add5d64164640b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 02/45] fix: Template: keep the body of a binary template that
 has no data

---
 src/v8unpack/MetaDataObject/Template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Template.py b/src/v8unpack/MetaDataObject/Template.py
index db5bfac..e26320e 100644
--- a/src/v8unpack/MetaDataObject/Template.py
+++ b/src/v8unpack/MetaDataObject/Template.py
@@ -130,6 +130,9 @@ class Template2(Simple):
             if write:
                 extension = helper.get_extension_from_comment(self.header['comment'])
                 helper.bin_write(self.data, self.new_dest_dir, f'{self.new_dest_file_name}.{extension}')
+        elif write:  # доставать нечего, сохраняем как есть
+            shutil.copy2(os.path.join(src_dir, filename),
+                         os.path.join(self.new_dest_dir, f'{self.new_dest_file_name}.c1b64'))
 
     def decode_html_data(self, src_dir, dest_dir, write):
         self._decode_html_data(src_dir, dest_dir, self.new_dest_file_name)
-- 
2.43.0


From d20b2b0fda20df0fe0447cfcc55d33c3f442358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 03/45] fix: extension taken from a comment never replaces the
 object's own files

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..55f6d03 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -323,7 +323,8 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        # json и c1b64 заняты файлами самого объекта
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ('json', 'c1b64'):
             return ext
     return res
 
-- 
2.43.0


From 68fa06645120e4b44fedf4175b3a21daccc46420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 04/45] fix: an encrypted module (image entry) is taken over
 and written back

---
 src/v8unpack/MetaObject/__init__.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..fdb92c9 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -296,21 +296,13 @@ class MetaObject:
                 continue
             if os.path.isdir(_obj_code_dir):
                 self.header[f'code_info_{code_name}'] = helper.brace_file_read(_obj_code_dir, 'info')
-                try:
-                    self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
-                                                                        uncomment_directive=uncomment_directive)
-                    self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
-                    # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
-                    for encrypted_type in self.encrypted_types:
-                        if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
-                            self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
-                            self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
-                            break
-                    if not_encrypted:
-                        raise err from err
+                self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
+                                                                    uncomment_directive=uncomment_directive)
+                if self.code[code_name] is None and os.path.isfile(os.path.join(_obj_code_dir, 'image')):
+                    # зашифрованный модуль: вместо text лежит image
+                    encoding = 'image'
+                    self.code[code_name] = helper.bin_read(_obj_code_dir, encoding)
+                self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -338,7 +330,7 @@ class MetaObject:
                     else:
                         self.code[code_name] = helper.txt_read(src_dir, f'{file_name}.{code_name}.bsl')
                 except FileNotFoundError:
-                    self.code[code_name] = ''
+                    self.code[code_name] = b'' if encoding in self.encrypted_types else ''
 
     def write_encode_code(self, dest_dir, *, comment_directive=False):
         for code_name in self.code:
@@ -358,7 +350,7 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    helper.bin_write(self.code[code_name], _code_dir, 'image' if encoding == 'image' else 'text')
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From eb5fb477b029c398f033cd4ccfd5483231ddc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 05/45] fix: the undecodable module of an ordinary form is
 written back as bytes

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..9d0b3d3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -343,8 +343,11 @@ class FormCore(SimpleNameFolder):
             helper.makedirs(_code_dir, exist_ok=True)
             helper.brace_file_write(self.form[0], _code_dir, 'form')
             _encoding = self.header.get('code_encoding_obj', 'utf-8-sig')
-            self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
-                                comment_directive=True)
+            if _encoding in self.encrypted_types:
+                helper.bin_write(self.code.get('obj', b''), _code_dir, 'module')
+            else:
+                self.write_raw_code(self.code.get('obj', ''), _code_dir, 'module', encoding=_encoding,
+                                    comment_directive=True)
 
     @classmethod
     def get_last_level_array(cls, data):
-- 
2.43.0


From 9565137efa578f20badd9c14aa817f384fbf7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 06/45] fix: ordinary form whose body is one file, or absent,
 is rebuilt as it was taken

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 9d0b3d3..0ff6bef 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -75,8 +75,9 @@ class FormCore(SimpleNameFolder):
             if os.path.isdir(_code_dir):
                 self.decode_form0_from_dir(_code_dir)
             else:
-                self.decode_form0_from_file(_code_dir, file_name)
-                pass
+                self.decode_form0_from_file(src_dir, file_name)
+        else:
+            self.form.append([])  # место за телом формы, следом идет содержимое .1
 
     def decode_form1(self, src_dir):
         try:
@@ -313,7 +314,7 @@ class FormCore(SimpleNameFolder):
                                detail=f'{self.__class__.__name__} {self.header["name"]} {self.header["uuid"]}')
 
     def encode_data(self):
-        if self.header['Тип формы'] == OF:
+        if self.header['Тип формы'] == OF and self.header.get('code_info_obj') != 'Код в отдельном файле':
             return
         try:
             _code = self.code.pop('obj', "")
@@ -336,7 +337,11 @@ class FormCore(SimpleNameFolder):
     def write_old_encode_object(self, dest_dir):
         helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
         self.file_list.append(self.header["uuid"])
-        if self.header.get('code_info_obj'):
+        if self.header.get('code_info_obj') == 'Код в отдельном файле':  # тело формы и модуль в одном файле
+            file_name = f'{self.header["uuid"]}.0'
+            helper.brace_file_write(self.form[0], dest_dir, file_name)
+            self.file_list.append(file_name)
+        elif self.header.get('code_info_obj'):
             dir_name = f'{self.header["uuid"]}.0'
             _code_dir = os.path.join(dest_dir, dir_name)
             self.file_list.append(dir_name)
-- 
2.43.0


From c4d1828f871d8dd94ee081b957092a564fe26015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 07/45] fix: an empty index file no longer makes extract and
 build return without doing anything

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..20996ca 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -25,8 +25,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -79,8 +77,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From d104470dda0afe093a08bb63eaf4424901b158e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 08/45] fix: temporary folder and worker pool are released when
 extract or build fails

---
 src/v8unpack/v8unpack.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 20996ca..4d1aa22 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -18,6 +18,8 @@ from .version import __version__
 
 
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
+    pool = None
+    clear_temp_dir = False
     try:
         begin0 = datetime.now()
         if options is None:
@@ -32,7 +34,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         if descent is None:
             helper.clear_dir(os.path.normpath(out_dir_name))
-        clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
@@ -59,16 +60,19 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
 
         end = datetime.now()
         print(f'{"Готово":30}: {end - begin0}')
-
-        helper.close_pool(pool)
-        if clear_temp_dir:
-            shutil.rmtree(temp_dir, ignore_errors=True)
     except Exception as err:
         raise ExtException(parent=err) from None
+    finally:
+        if pool is not None:
+            helper.close_pool(pool)
+        if clear_temp_dir:
+            shutil.rmtree(temp_dir, ignore_errors=True)
 
 
 def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
+    pool = None
+    clear_temp_dir = False
     try:
         begin0 = datetime.now()
         if options is None:
@@ -80,7 +84,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
 
         print(f"Начали")
 
-        clear_temp_dir = False
         if temp_dir is None:
             clear_temp_dir = True
             temp_dir = tempfile.mkdtemp()
@@ -106,15 +109,16 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         compress_and_build(dir_stage1, dir_stage0, pool=pool)
         container_build(dir_stage0, out_file_name, True)
 
-        helper.close_pool(pool)
-        if clear_temp_dir:
-            shutil.rmtree(temp_dir, ignore_errors=True)
-
         end = datetime.now()
         print(f'{"Готово":30}: {end - begin0}')
 
     except Exception as err:
         raise ExtException(parent=err) from None
+    finally:
+        if pool is not None:
+            helper.close_pool(pool)
+        if clear_temp_dir:
+            shutil.rmtree(temp_dir, ignore_errors=True)
 
 
 def build_all(product_file_name: str, product_code: str = None, processes=None):
-- 
2.43.0


From fadc6413bd3dadf90d142dfbae7e692d4b65fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 09/45] fix: extract and build no longer modify the caller's
 options

---
 src/v8unpack/v8unpack.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4d1aa22..0e65c39 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -22,8 +22,7 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
     clear_temp_dir = False
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = dict()
+        options = dict(options or {})
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -75,8 +74,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
     clear_temp_dir = False
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = {}
+        options = dict(options or {})
 
         print(f"saby v8unpack {__version__}")
 
-- 
2.43.0


From 7ba18850a41fff33b170837488ec01a0ed91c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 10/45] fix: --processes given on the command line takes effect

---
 src/v8unpack/v8unpack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 0e65c39..77c6d28 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -259,20 +259,20 @@ def main():
     try:
         if args.E is not None:
             extract(os.path.abspath(args.E[0]), os.path.abspath(args.E[1]),
-                    index=args.index, temp_dir=args.temp, options=options)
+                    index=args.index, temp_dir=args.temp, processes=args.processes, options=options)
             return
 
         if args.B is not None:
             build(os.path.abspath(args.B[0]), os.path.abspath(args.B[1]),
-                  index=args.index, temp_dir=args.temp, options=options)
+                  index=args.index, temp_dir=args.temp, processes=args.processes, options=options)
             return
 
         if args.BA is not None:
-            build_all(args.BA[0], args.index)
+            build_all(args.BA[0], args.index, processes=args.processes)
             return
 
         if args.EA is not None:
-            extract_all(args.EA[0], args.index)
+            extract_all(args.EA[0], args.index, processes=args.processes)
             return
 
         if args.I is not None:
-- 
2.43.0


From 0f5d5295c7b3020f5cb38e8b7f968f0d30da0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 11/45] fix: extraction with descent keeps the files of the
 other versions

---
 src/v8unpack/organizer_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..6948a48 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,10 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:
+            helper.clear_dir(dest_dir)
+        else:
+            helper.makedirs(dest_dir, exist_ok=True)
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From db333d7b00c70e87e7bcdceb2af1cd3c7b2436a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 12/45] fix: a container entry without stored data is read as
 an empty entry

---
 src/v8unpack/container_doc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..e439459 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -65,6 +65,8 @@ class Document:
         :return: генератор чтения данных документа
         """
         header_block = self.read_block(file, offset)
+        if header_block is None:
+            return
         doc_size = max(header_block.doc_size, min_block_size)
         if doc_size > header_block.current_block_size:
             self.full_size = doc_size + math.ceil(
@@ -85,6 +87,8 @@ class Document:
 
             while left_bytes > 0 and next_block_offset != self.container.end_marker:
                 block = self.read_block(file, next_block_offset, left_bytes)
+                if block is None:
+                    raise BufferError('Container is truncated')
                 left_bytes -= len(block.data)
                 yield block.data
                 next_block_offset = block.next_block_offset
-- 
2.43.0


From 226cfaa2ce5d56c8d94238cb84f475e42f2d63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 13/45] fix: nested container is added before its temporary
 file is closed

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..e69a56e 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -205,7 +205,7 @@ class Container:
                 with tempfile.TemporaryFile() as tmp2:
                     _container = Container()
                     _container.build(tmp2, file_path, nested=True)
-                self.add_file(tmp2, file_name, inflate=not nested)
+                    self.add_file(tmp2, file_name, inflate=not nested)
             else:
                 with open(file_path, 'rb') as entry_file:
                     self.add_file(entry_file, file_name, inflate=not nested)
-- 
2.43.0


From 45f04abf5cc405bc17ac9103716822fe996022ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 14/45] fix: offsets of a container appended after another one
 are relative to its own start

---
 src/v8unpack/container.py     | 2 +-
 src/v8unpack/container_doc.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index e69a56e..7b90b31 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -241,7 +241,7 @@ class Container:
                 doc.write_block(f, doc_size=doc_size, offset=self.header_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index e439459..d55a5e7 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -147,9 +147,9 @@ class Document:
         :rtype: int
         """
         if offset is not None:
-            self.container.file.seek(offset)
+            self.container.file.seek(offset + self.container.offset)
         else:
-            offset = file_size(self.container.file)
+            offset = file_size(self.container.file) - self.container.offset
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From d8f9212d6aa2e5a05cfa9e86a4a532063f1b80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 15/45] fix: the main container is chosen by name, not by
 directory order

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..63e423b 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From 6ab51dc8ed80327e2c259e4d918751fe4af1fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 16/45] fix: file name with a zero-padded number part is
 returned as it is

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 55f6d03..3cc7a12 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -397,7 +397,8 @@ def remove_descent_from_filename(file_name):
         if str(int(_descent)) == _descent:
             return '.'.join(_name)
     except Exception:
-        return file_name
+        pass
+    return file_name
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From 5eb210a83a8e4282453baa3cab905fb76f2a483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 17/45] fix: version variants are matched by the exact base
 name and extension

---
 src/v8unpack/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 3cc7a12..805f5d8 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -362,7 +362,7 @@ def get_near_descent_file_name(path, file_name, descent):
         entities = []
     descents = []
     for entity in entities:
-        if entity.startswith(startswith) and entity.endswith(endswith):
+        if entity == file_name or entity.startswith(f'{startswith}.') and entity.endswith(f'.{endswith}'):
             _entity = entity.split('.')
             if entity == file_name:
                 is_without_descent = True
-- 
2.43.0


From d303ad6c90c3eb0a49509e2dbf30317415983912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 18/45] fix: a shared folder whose name begins like the source
 folder is not taken for a part of it

---
 src/v8unpack/helper.py         | 4 ++++
 src/v8unpack/organizer_code.py | 4 ++--
 src/v8unpack/organizer_file.py | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 805f5d8..cedd9b7 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -401,6 +401,10 @@ def remove_descent_from_filename(file_name):
     return file_name
 
 
+def is_inside(path, root):
+    return path == root or path.startswith(os.path.join(root, ''))
+
+
 def makedirs(name, exist_ok=False):
     for i in range(3):
         try:
diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..938b1c2 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -79,7 +79,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
@@ -100,7 +100,7 @@ class OrganizerCode:
                             _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
                                                                        descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 6948a48..3117cf8 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -65,7 +65,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -95,7 +95,7 @@ class OrganizerFile:
                     _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
                         elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
-- 
2.43.0


From 4a49099820133fb6fc4bb997d04cde90018de511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 19/45] fix: names taken from the binary cannot point outside
 the folder of the extraction

---
 src/v8unpack/container.py | 3 ++-
 src/v8unpack/helper.py    | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 7b90b31..63b5fb0 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -14,7 +14,7 @@ from struct import unpack
 from tqdm import tqdm
 
 from .container_doc import Document
-from .helper import clear_dir, file_size
+from .helper import check_file_name, clear_dir, file_size
 
 Header = collections.namedtuple('Header', 'first_empty_block_offset, default_block_size, count_files')
 Block = collections.namedtuple('Block', 'doc_size, current_block_size, next_block_offset, data')
@@ -92,6 +92,7 @@ class Container:
 
     @staticmethod
     def extract_file(filename, file_obj, path, deflate=False, recursive=False):
+        check_file_name(filename)
         file_path = os.path.join(path, filename)
         with open(file_path, 'wb') as f:
             if deflate:
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index cedd9b7..96acdb5 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,6 +122,7 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
+    check_file_name(obj['name'])
     if prefix and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
@@ -154,6 +155,12 @@ def encode_header(meta_obj, header: list):
         header[2] = str_encode(f"{prefix}{obj['name']}")
 
 
+def check_file_name(name: str) -> None:
+    # имя из бинарника становится именем файла или папки и не должно указывать за пределы папки
+    if name in ('', '.', '..') or '/' in name or '\\' in name or ':' in name:
+        raise ValueError(f'Недопустимое имя "{name}"')
+
+
 def clear_dir(path: str) -> None:
     shutil.rmtree(path, ignore_errors=True)
     makedirs(path, exist_ok=True)
-- 
2.43.0


From 9cf0fda77ddce929fadc42a97e2cfb93ed993919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 20/45] fix: line break after a closing quote has a defined
 meaning for the property text parser

---
 src/v8unpack/json_container_decoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..f590e2a 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -185,6 +185,11 @@ class JsonContainerDecoder:
     def _decode_line_begin_read_string_value(self, line):
         self.decode_object(line)
 
+    def _decode_line_end_read_string_value(self, line):
+        if line[0] not in [',', '}', '\n']:
+            raise ExtException(message='Неожиданное продолжение строки', detail=f'в файле :{self.src_dir}/{self.file_name}')
+        self.decode_object(line)
+
     def decode_object(self, line):
         for i, char in enumerate(line):
             if self.mode == Mode.READ_PARAM:
@@ -219,6 +224,8 @@ class JsonContainerDecoder:
                     self._end_value()
                 elif char == '}':
                     self._end_current_object()
+                elif char == '\n':
+                    break
                 else:
                     self._add_to_current_value(char)
             else:
-- 
2.43.0


From d86ca27bd3e9bd5bbba108a6aa91590572571344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 21/45] fix: with auto_include a parent without children gets
 an empty list instead of the marker

---
 src/v8unpack/MetaDataObject/__init__.py           | 2 +-
 src/v8unpack/MetaObject/Configuration.py          | 4 ++--
 src/v8unpack/MetaObject/ConfigurationExtension.py | 4 ++--
 src/v8unpack/MetaObject/ExternalDataProcessor.py  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..cd17faa 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -154,7 +154,7 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index:
+            if include_index or self.get_options('auto_include'):
                 self.fill_header_includes(include_index)  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index bc88c1f..ce680a1 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -114,8 +114,8 @@ class Configuration(MetaObject):
             except KeyError:
                 pass
 
-        if include_index and self.get_options('auto_include'):
-            self.fill_header_includes(include_index)  # todo dynamic index
+        if self.get_options('auto_include'):
+            self.fill_header_includes(include_index or {})  # todo dynamic index
 
         helper.brace_file_write(self.header["root"], dest_dir, 'root')
         file_list.append('root')
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0c93808..2d62082 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -84,8 +84,8 @@ class ConfigurationExtension(Configuration):
 
             helper.check_version(__version__, self.header.get('v8unpack', ''))
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             # self.header['copyinfo'][2] = b64encode(bytes.fromhex(self.header['copyinfo'][2]+md5().digest().hex())).decode()
             root = [
diff --git a/src/v8unpack/MetaObject/ExternalDataProcessor.py b/src/v8unpack/MetaObject/ExternalDataProcessor.py
index fa3b75f..b3955d1 100644
--- a/src/v8unpack/MetaObject/ExternalDataProcessor.py
+++ b/src/v8unpack/MetaObject/ExternalDataProcessor.py
@@ -73,8 +73,8 @@ class ExternalDataProcessor(MetaObject):
 
             self.set_product_info(src_dir, file_name)
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             helper.brace_file_write(self.encode_root(), dest_dir, 'root')
             file_list.append('root')
-- 
2.43.0


From c691b5b7292c8ce99676aa05a906a3e1f5d289ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 22/45] fix: the name prefix is removed only from the objects
 it is added to by build

---
 src/v8unpack/MetaDataObject/__init__.py           | 1 +
 src/v8unpack/MetaDataObject/core/IncludeSimple.py | 3 +++
 src/v8unpack/MetaObject/__init__.py               | 1 +
 src/v8unpack/helper.py                            | 3 ++-
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index cd17faa..0daec5b 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -54,6 +54,7 @@ class MetaDataObject(MetaObject):
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
+            self.top_level = os.path.dirname(dest_path) == ''
             self.decode_header(header_data)
             self.decode_object(src_dir, file_name, dest_dir, dest_path, self.obj_version, header_data)
             tasks = self.decode_includes(src_dir, dest_dir, self.new_dest_path, header_data)
diff --git a/src/v8unpack/MetaDataObject/core/IncludeSimple.py b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
index 7d047e6..698afac 100644
--- a/src/v8unpack/MetaDataObject/core/IncludeSimple.py
+++ b/src/v8unpack/MetaDataObject/core/IncludeSimple.py
@@ -1,3 +1,5 @@
+import os
+
 from ...MetaDataObject import MetaDataObject
 from ...ext_exception import ExtException
 
@@ -19,6 +21,7 @@ class IncludeSimple(MetaDataObject):
     def decode_internal_include(cls, parent, header_data, src_dir, dest_dir, dest_path, options):
         try:
             self = cls(options=options)
+            self.top_level = os.path.dirname(dest_path) == ''
             self.decode_header(header_data)
             self.set_write_decode_mode(dest_dir, dest_path)
             self.decode_code(src_dir)
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index fdb92c9..dcffd7e 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -31,6 +31,7 @@ class MetaObject:
         self.file_list = []
         self.obj_version = obj_version
         self.options = options
+        self.top_level = False
 
     @classmethod
     def get_container_uuid(cls, header_data):
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 96acdb5..8ff7424 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -123,7 +123,8 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
     check_file_name(obj['name'])
-    if prefix and obj['name'].startswith(prefix):
+    # убираем только там, где сборка его добавит (encode_header)
+    if prefix and meta_obj.top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
     obj['name2'] = {}
-- 
2.43.0


From d397e8efadac711cd464c0a50fe7bb74cd917b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 23/45] fix: the version option takes effect on extraction

---
 src/v8unpack/MetaObject/Configuration.py          | 2 ++
 src/v8unpack/MetaObject/ConfigurationExtension.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index ce680a1..076760c 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -39,6 +39,8 @@ class Configuration(MetaObject):
         self.counter = {}
 
     def decode(self, src_dir, dest_dir, *, version=None, **kwargs):
+        if version is None:
+            version = self.get_options('version')
         self.header = {}
         root = helper.brace_file_read(src_dir, 'root')
         self.header['v8unpack'] = __version__
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 2d62082..69341e4 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -18,6 +18,8 @@ class ConfigurationExtension(Configuration):
     }
 
     def decode(self, src_dir, dest_dir, *, version=None, **kwargs):
+        if version is None:
+            version = self.get_options('version')
         self.header = {}
         root = helper.brace_file_read(src_dir, 'configinfo')
         self.header['configinfo'] = root
-- 
2.43.0


From 5cca426040de95fd91fc46d93ca3c933f720cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 24/45] fix: looking for a version variant creates no folder in
 the sources

---
 src/v8unpack/helper.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 8ff7424..48fcea0 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -366,7 +366,6 @@ def get_near_descent_file_name(path, file_name, descent):
     try:
         entities = os.listdir(path)
     except FileNotFoundError:
-        makedirs(path, exist_ok=True)
         entities = []
     descents = []
     for entity in entities:
-- 
2.43.0


From c48316ab9924c60168c5bbe9bcdef8ac2ef4b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 25/45] fix: failure to take apart a list of a form keeps the
 whole form body

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..23a61c9 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -277,7 +277,7 @@ class _FormRoot:
             del items[index_element_count + 1:index_element_count + 1 + element_count]
             return result
         except Exception as err:
-            pass
+            raise ExtException(parent=err)  # тело формы уже могло быть изменено, форма сохраняется целиком
 
     @classmethod
     def encode_list(cls, form, src_dir, file_name, version, raw_data):
-- 
2.43.0


From 35794ad2fac9a3e6f937ef92323c632b026e7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 26/45] fix: a form whose elements were not taken apart is
 built from its complete body

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 0ff6bef..59c5576 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -196,6 +196,7 @@ class FormCore(SimpleNameFolder):
                 form_element_decoder(self).decode(src_dir, dest_dir, dest_path, self.form[0][0])
             except Exception as err:
                 self.form = json.loads(backup)
+                self.header['Элементы формы не разобраны'] = True
                 pass  # todo если какие то елементы формы не разбираются, не прерываем
                 # raise ExtException(parent=err, message='Ошибка при разборе формы')
 
@@ -279,6 +280,9 @@ class FormCore(SimpleNameFolder):
         if not self.form or not self.form[0]:
             return
 
+        if self.header.get('Элементы формы не разобраны'):
+            return
+
         form_element_decoder = self.get_form_element_decoder()
         if not form_element_decoder:
             return
-- 
2.43.0


From 9aaf2359add3cc83978f5288aa8ddd5a044e8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 27/45] fix: the second container is looked for where the first
 one really ends

---
 src/v8unpack/container.py     |  6 +++---
 src/v8unpack/container_doc.py | 23 ++++++++++++++---------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 63b5fb0..35da6fd 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -171,13 +171,13 @@ class Container:
         doc_data = doc.read(file, self.header_size, self.index_block_size)
         table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
                              doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
-        self.size += self.header_size + doc.full_size
+        self.size = max(self.header_size, doc.end_offset)
 
         files = collections.OrderedDict()
         for file_description_offset, file_data_offset in table_of_contents:
             doc = Document(self)
             doc_data = doc.read(file, file_description_offset)
-            self.size += doc.full_size
+            self.size = max(self.size, doc.end_offset)
             fmt = ''.join(['QQi', str(doc.data_size - calcsize('QQi')), 's'])
             file_description = unpack(fmt, doc_data)
             # Из описания формата длина имени файла определяется точно, поэтому, теоретически, мусора быть не должно
@@ -187,7 +187,7 @@ class Container:
 
             doc = Document(self)
             file_data = doc.read_chunk(file, file_data_offset, self.default_block_size)
-            self.size += doc.full_size
+            self.size = max(self.size, doc.end_offset)
 
             inner_file = File(name, doc.data_size, self.parse_datetime(file_description[0]),
                               self.parse_datetime(file_description[1]), file_data)
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index d55a5e7..4eeb772 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -25,7 +25,7 @@ BUFFER_CHUNK_SIZE = 512
 class Document:
     def __init__(self, container):
         self.container = container
-        self.full_size = 0  # include all header size
+        self.end_offset = 0  # end of the last block, include all header size
         self.data_size = 0
 
     def read(self, file, offset, min_block_size=0):
@@ -67,14 +67,7 @@ class Document:
         header_block = self.read_block(file, offset)
         if header_block is None:
             return
-        doc_size = max(header_block.doc_size, min_block_size)
-        if doc_size > header_block.current_block_size:
-            self.full_size = doc_size + math.ceil(
-                header_block.doc_size / header_block.current_block_size) * min_block_size
-            if min_block_size == self.container.index_block_size:
-                self.full_size += self.container.index_block_size
-        else:
-            self.full_size = doc_size + self.container.block_header_size
+        self.end_offset = self.get_end_offset(file, offset, header_block)
 
         if header_block is None:
             return
@@ -93,6 +86,18 @@ class Document:
                 yield block.data
                 next_block_offset = block.next_block_offset
 
+    def get_end_offset(self, file, offset, block):
+        result = 0
+        visited = set()
+        while block is not None and offset not in visited:
+            visited.add(offset)
+            result = max(result, offset + self.container.block_header_size + block.current_block_size)
+            offset = block.next_block_offset
+            if offset == self.container.end_marker:
+                break
+            block = self.read_block(file, offset, 0)
+        return result
+
     def read_block(self, file, offset, max_data_length=None):
         """
         Считывает блок данных из контейнера.
-- 
2.43.0


From b10e1893b85dac7693c504b0097ae02657ed12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 28/45] fix: an entry marked as having no data is read as an
 empty entry

---
 src/v8unpack/container.py     | 10 +++++++---
 src/v8unpack/container_doc.py |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 35da6fd..69b8ddd 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -9,7 +9,7 @@ import zlib
 from datetime import datetime, timedelta
 from struct import pack, calcsize
 # -*- coding: utf-8 -*-
-from struct import unpack
+from struct import iter_unpack, unpack
 
 from tqdm import tqdm
 
@@ -169,8 +169,12 @@ class Container:
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
-        table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
-                             doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
+        table_of_contents = []
+        for file_description_offset, file_data_offset, marker in iter_unpack(
+                f'3{self.index_fmt}', doc_data[:len(doc_data) - len(doc_data) % calcsize(f'3{self.index_fmt}')]):
+            if marker != self.end_marker:
+                break
+            table_of_contents.append((file_description_offset, file_data_offset))
         self.size = max(self.header_size, doc.end_offset)
 
         files = collections.OrderedDict()
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 4eeb772..47f3a64 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -64,6 +64,8 @@ class Document:
         :type offset: int
         :return: генератор чтения данных документа
         """
+        if offset == self.container.end_marker:  # данных нет
+            return
         header_block = self.read_block(file, offset)
         if header_block is None:
             return
-- 
2.43.0


From 7f5ed22968fe53d6f82ce8c0d0d959f9c73fc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 29/45] fix: a file compressed while it is added to a container
 gets its offset

---
 src/v8unpack/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 69b8ddd..a159e86 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -276,7 +276,9 @@ class Container:
 
         doc = Document(self)
         if inflate:
-            data_doc_offset = doc.compress(fd, self.file)
+            with tempfile.TemporaryFile() as packed:
+                doc.compress(fd, packed)
+                data_doc_offset = doc.write(packed, min_block_size=self.default_block_size)
         else:
             data_doc_offset = doc.write(fd, min_block_size=self.default_block_size)
 
-- 
2.43.0


From 982d0c50e2053d3fa86387388f02f4c3391cd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 30/45] fix: check the object name after the prefix has been
 removed from it

---
 src/v8unpack/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 48fcea0..b1e595d 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,11 +122,11 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    check_file_name(obj['name'])
     # убираем только там, где сборка его добавит (encode_header)
     if prefix and meta_obj.top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
+    check_file_name(obj['name'])
     obj['name2'] = {}
     count_locale = int(header[3][0])
     for i in range(count_locale):
-- 
2.43.0


From 4bd0b86731ce98f9128d4c240cf8c243d128c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 31/45] fix: form elements are versioned in version-inheritance
 mode like every other file

---
 src/v8unpack/organizer_file.py      |  3 ++-
 src/v8unpack/organizer_form_elem.py | 30 ++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 3117cf8..f154697 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -43,7 +43,8 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent,
+                                            cls.unpack_get_descent_filename))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..fa96e2e 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -13,12 +13,16 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, unpack_get_descent_filename = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
         areas['root'] = elements
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, unpack_get_descent_filename)
+
+    @staticmethod
+    def equal_elements(src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
+        return helper.json_read(near_descent_path, near_descent_file_name) == src_data
 
     @staticmethod
     def is_area(name):
@@ -107,8 +111,9 @@ class OrganizerFormElem:
         except Exception as err:
             raise ExtException(parent=err)
 
-    @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    @classmethod
+    def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas,
+                            unpack_get_descent_filename):
         try:
             for elem in areas:
                 if elem == 'root':
@@ -119,7 +124,11 @@ class OrganizerFormElem:
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
 
-                helper.json_write(areas[elem], dest_path, dest_file_name)
+                if helper.is_inside(dest_path, dest_dir):  # файлы вне папки исходников не версионируются
+                    dest_path, dest_file_name = unpack_get_descent_filename(
+                        None, None, areas[elem], dest_path, dest_file_name, descent, cls.equal_elements)
+                if dest_file_name:
+                    helper.json_write(areas[elem], dest_path, dest_file_name)
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -133,8 +142,8 @@ class OrganizerFormElem:
             descent, pack_get_descent_filename = params
         elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
-                                index_code_areas, descent)
+            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
+                                index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
                                detail=f'{os.path.join(src_path, src_file_name)}')
@@ -147,7 +156,8 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
+    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+                        pack_get_descent_filename):
         for elem in tree:
             try:
                 name: str = elem['name']
@@ -158,6 +168,8 @@ class OrganizerFormElem:
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
+                    if helper.is_inside(_src_abs_path, src_dir):
+                        _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
 
                     include_elements = helper.json_read(_src_abs_path, _file_name)
                     cls._append_area_data(include_elements['tree'], name, root_data, include_elements['data'],
@@ -167,7 +179,7 @@ class OrganizerFormElem:
                 child = elem.get('child')
                 if child:
                     cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
-                                        descent)
+                                        descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
 
-- 
2.43.0


From bee288a10c6306a997f2b449a0626f3f74a7aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 32/45] fix: a variant whose number is not in canonical form is
 not taken for a version

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index b1e595d..ef1789b 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -380,7 +380,8 @@ def get_near_descent_file_name(path, file_name, descent):
             full_path = os.path.join(path, entity)
             if os.path.isfile(full_path):
                 try:
-                    descents.append(int(_entity[-2]))
+                    if str(int(_entity[-2])) == _entity[-2]:  # иначе по номеру не восстановить имя файла
+                        descents.append(int(_entity[-2]))
                 except ValueError:  # если во втором разряде не число, значит не наш вариант
                     pass
     if not descents:
-- 
2.43.0


From f218c317492d818233d4c15918d1078d2bf730da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 33/45] fix: an index entry * means the same files and the same
 folder in both directions

---
 src/v8unpack/index.py          |  5 ++++-
 src/v8unpack/organizer_file.py | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index dde9dda..70ccbd6 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -17,7 +17,10 @@ def get_from_index(index: dict, path: str, file_name: str):
         try:
             return _index[file_name]
         except KeyError:
-            return os.path.join(_index['*'], file_name)
+            for entry in _index:  # все файлы папки, кроме перечисленных: "*" или "*-исключение1-исключение2"
+                if entry.startswith('*') and _index[entry] and file_name not in entry.split('-')[1:]:
+                    return os.path.join(_index[entry], file_name)
+            raise
     except TypeError:
         raise ExtException(
             message="Ошибка c уровнями вложенности в Index.json",
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index f154697..dc2e163 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -205,7 +205,6 @@ class OrganizerFile:
     def _pack_index(cls, src_dir: str, dest_dir: str, tasks_code_file: list, tasks_form_elem, index: dict,
                     index_code_areas: dict, path: list,
                     descent=None):
-        completed_entry = []
         for entry in index:
             try:
                 if entry == 'Области include':
@@ -214,17 +213,23 @@ class OrganizerFile:
                     continue
                 if entry.startswith("*"):
                     all_path = index[entry]
-                    all_files = os.listdir(all_path)
+                    all_full_path = os.path.join(
+                        src_dir,
+                        '..',
+                        '' if descent is None else '..',  # в режиме с descent корень находится на уровень выше
+                        all_path
+                    )
+                    all_files = os.listdir(all_full_path)
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
-                        # пропускаем все что были до
-                        if file_name in completed_entry:
+                        # пропускаем все что описаны отдельно
+                        if file_name in index:
                             continue
                         if file_name in excluded:
                             continue
-                        file_path = os.path.join(all_path, file_name)
-                        if not os.path.isfile(os.path.normcase(file_path)):
+                        if not os.path.isfile(os.path.normcase(os.path.join(all_full_path, file_name))):
                             continue
+                        file_path = os.path.join(all_path, file_name)
                         cls._pack_index_elem(file_name, src_dir, dest_dir, tasks_code_file, tasks_form_elem, file_path,
                                              index_code_areas, path, descent)
                     continue
@@ -236,7 +241,6 @@ class OrganizerFile:
                     path.pop()
                     pass
                 elif isinstance(index[entry], str):
-                    completed_entry.append(entry)
                     cls._pack_index_elem(entry, src_dir, dest_dir, tasks_code_file, tasks_form_elem, index[entry],
                                          index_code_areas, path, descent)
                 else:
-- 
2.43.0


From 3b6836193b3d8bab5c0f4a4662f82ed868f6a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 34/45] fix: an area is written next to the file it is included
 from, where build looks for it

---
 src/v8unpack/organizer_code.py      | 3 ++-
 src/v8unpack/organizer_file.py      | 6 ++++--
 src/v8unpack/organizer_form_elem.py | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 938b1c2..27eee8a 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -44,7 +44,8 @@ class OrganizerCode:
                                 #     raise Exception(
                                 #         f'В {path}{file_name} ссылка на один и тот же файл у разных областей {key}')
                                 self.code_areas[_include_path[-1]]['data'] += line
-                                self.code_areas[key] = dict(data='', area_type=area_type)
+                                parent = self.code_areas[key]['parent'] if key in self.code_areas else _include_path[-1]
+                                self.code_areas[key] = dict(data='', area_type=area_type, parent=parent)
                                 _include_path.append(key)
                                 _path.append(key)
                             else:
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index dc2e163..69e9d4b 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -91,10 +91,12 @@ class OrganizerFile:
                 if elem == 'root':
                     _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
                 else:
+                    # область ищется рядом с файлом, в который она включена
+                    parent = code_areas[_file['parent']]
+                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
+                        elem, parent['path'], file_name, index.get('Области include') if index else None, descent)
                     if _file['area_type'] == 'includr':
                         continue
-                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
-                        elem, path, file_name, index.get('Области include') if index else None, descent)
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
                 if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index fa96e2e..6b68c8b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -115,12 +115,14 @@ class OrganizerFormElem:
     def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas,
                             unpack_get_descent_filename):
         try:
+            root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
             for elem in areas:
                 if elem == 'root':
-                    dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
+                    dest_entry_path, dest_file_name = root_path, root_file_name
                 else:
+                    # область ищется рядом с файлом, в который она включена
                     dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-                        elem, path, elem, index.get('Области include') if index else None, descent,
+                        elem, root_path, elem, index.get('Области include') if index else None, descent,
                         file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
 
-- 
2.43.0


From b3e2f6e8dd62e64477c1a7558eaf47bd42da32c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:52 +0000
Subject: [PATCH 35/45] fix: a module or form mapped in the index is no longer
 overwritten by its namesake in the source folder

---
 src/v8unpack/organizer_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 69e9d4b..30795f6 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -149,7 +149,10 @@ class OrganizerFile:
             if index:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
-            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            # модули и элементы форм, переопределенные в индексе, собираются позже и на диске их еще нет
+            mapped = {(task[4], task[5]) for task in tasks_code_file + tasks_form_elem}
+            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent,
+                      mapped)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
@@ -261,7 +264,8 @@ class OrganizerFile:
         return os.listdir(os.path.join(src_dir, path))
 
     @classmethod
-    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None):
+    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None,
+              mapped=()):
         if path:
             helper.makedirs(os.path.join(dest_dir, path), exist_ok=True)
         entries = cls.list_descent_dir(src_dir, path, descent)
@@ -271,7 +275,9 @@ class OrganizerFile:
 
                 if os.path.isdir(os.path.normcase(src_entry_path)):
                     cls._pack(src_dir, dest_dir, os.path.join(path, entry), tasks_code_file, tasks_form_elem, index,
-                              index_code_areas, descent)
+                              index_code_areas, descent, mapped)
+                    continue
+                if (path, entry) in mapped:
                     continue
                 _src_path = os.path.join(src_dir, path)
                 descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
-- 
2.43.0


From 899fd95f3f7d81177a6ff0a2e7daa91694e182c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 36/45] fix: a byte order mark in an area file does not get
 into the middle of the joined module

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 27eee8a..88ad1a2 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -83,7 +83,7 @@ class OrganizerCode:
             if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
-            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
+            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8-sig') as file:
                 line = file.readline()
                 while line:
                     _line = line.strip()
-- 
2.43.0


From 28f6bc4874569046ccb9c98f8f6558cd2abdb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 37/45] fix: pages of a read-only form area are taken from its
 file on build

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 6b68c8b..547ff29 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -202,12 +202,12 @@ class OrganizerFormElem:
                     if child:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From 6b7fc5febd89a91edbe469745762045217ec85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 38/45] fix: an area inside a form area and the pages of a
 panel without elements go to the area's file

---
 src/v8unpack/organizer_form_elem.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 547ff29..912608b 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -32,6 +32,10 @@ class OrganizerFormElem:
             return area_type
         return None
 
+    @staticmethod
+    def get_data_name(name):
+        return f'include_{name[8:]}' if name[:8] == 'includr_' else name
+
     @staticmethod
     def get_old_path(_elem, _path, _name=None):
         page = _elem.get('page')
@@ -92,8 +96,10 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
-                        cls._pop_area_data(child, old_path, root_data, data, remove_path)
+                    if child is not None:
+                        # данные детей includr лежат по пути include, у панели без элементов могут быть страницы
+                        cls._pop_area_data(child, cls.get_old_path(elem, path, cls.get_data_name(name)), root_data,
+                                           data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
             if pages is not None:
@@ -199,8 +205,9 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
-                        cls._append_area_data(child, old_path, root_data, data, append_path)
+                    if child is not None:
+                        cls._append_area_data(child, cls.get_old_path(elem, _path, cls.get_data_name(name)), root_data,
+                                              data, append_path)
 
             pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
-- 
2.43.0


From 5a9c81e63a9870ed163c1335c6d36d9e132e3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 39/45] fix: order of the versions table no longer depends on
 which worker finishes first

---
 src/v8unpack/MetaObject/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index dcffd7e..a2a5c09 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -233,7 +233,7 @@ class MetaObject:
     @classmethod
     def encode_versions(cls, file_list):
         versions = ["1", str(len(file_list) + 1), helper.str_encode(""), str(uuid4())]
-        for file_name in file_list:
+        for file_name in sorted(file_list):  # порядок не зависит от очередности завершения задач
             versions.append(helper.str_encode(file_name))
             versions.append(str(uuid4()))
         return [versions]
-- 
2.43.0


From ede33f7f9c98c3faf30236ed5837cf3c7c473239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:31 +0000
Subject: [PATCH 40/45] fix: auto_include - children of a type that had none
 when the sources were extracted were left out of their parent

---
 src/v8unpack/MetaObject/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index a2a5c09..25f31ad 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -172,6 +172,11 @@ class MetaObject:
                 internal_data = include_index.get(metadata_type.name)
                 if not internal_data:
                     return
+                if not _count_obj and self.get_options('auto_include'):  # раньше объектов этого типа не было
+                    include_objects = sorted(internal_data, key=lambda d: d[1])
+                    include_objects = [elem[2] for elem in include_objects]
+                    include[i + 3] = [_metadata_type_uuid, str(len(include_objects)), *include_objects]
+                    return
                 # данные простых объектов пришли из внешних файлов и нужно поместить из в объект
                 internal_data_uuid = {}
                 for i, elem in enumerate(internal_data):
-- 
2.43.0


From a51860801942ed5360407037b11a38e2bac0101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:30 +0000
Subject: [PATCH 41/45] fix: an object was named None... on build when the
 prefix option is given as None

---
 src/v8unpack/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index ef1789b..9ab836c 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -152,7 +152,7 @@ def encode_header(meta_obj, header: list):
     header[1][2] = obj['uuid']
     # если собирается с параметром префикс и это объект верхнего уровня и это не заимствованный объект
     if options and meta_obj.parent_id.find('/') == -1 and (len(header) < 6 or header[5] == '0'):
-        prefix = options.get('prefix', '')
+        prefix = options.get('prefix') or ''
         header[2] = str_encode(f"{prefix}{obj['name']}")
 
 
-- 
2.43.0


From 4533bfcc71207f18633fb25079f3e0520b615687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:48 +0000
Subject: [PATCH 42/45] fix: a property text that ends inside a list is an
 error

---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index f590e2a..deab835 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -111,7 +111,7 @@ class JsonContainerDecoder:
                         current_object=self.current_object,
                         path=self.path
                     ))
-        if self.mode != Mode.READ_PARAM:
+        if self.mode != Mode.READ_PARAM or self.path:
             raise ExtException(
                 message="Ошибка при разборе скобкофайла",
                 detail=f'{os.path.basename(self.src_dir)}/{self.file_name} файл закончен в режиме {self.mode}, '
-- 
2.43.0


From 8c0bcbeffa33c205a502a10ad42ff40699852fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:39 +0000
Subject: [PATCH 43/45] =?UTF-8?q?fix:=20=D1=8D=D0=BB=D0=B5=D0=BC=D0=B5?=
 =?UTF-8?q?=D0=BD=D1=82=D1=8B=20=D0=B3=D1=80=D1=83=D0=BF=D0=BF=D1=8B=20?=
 =?UTF-8?q?=D1=81=20includr=5F=20=D0=B2=20=D1=81=D0=B5=D1=80=D0=B5=D0=B4?=
 =?UTF-8?q?=D0=B8=D0=BD=D0=B5=20=D0=B8=D0=BC=D0=B5=D0=BD=D0=B8=20=D0=B8?=
 =?UTF-8?q?=D0=BB=D0=B8=20=D0=B2=D0=BD=D1=83=D1=82=D1=80=D0=B8=20=D1=82?=
 =?UTF-8?q?=D0=B0=D0=B1=D0=BB=D0=B8=D1=86=D1=8B=20=D0=B8=D1=89=D1=83=D1=82?=
 =?UTF-8?q?=D1=81=D1=8F=20=D0=BF=D0=BE=D0=B4=20=D1=82=D0=B5=D0=BC=20=D0=B6?=
 =?UTF-8?q?=D0=B5=20=D0=BF=D1=83=D1=82=D1=91=D0=BC,=20=D0=BF=D0=BE=D0=B4?=
 =?UTF-8?q?=20=D0=BA=D0=BE=D1=82=D0=BE=D1=80=D1=8B=D0=BC=20=D1=81=D0=BE?=
 =?UTF-8?q?=D1=85=D1=80=D0=B0=D0=BD=D0=B5=D0=BD=D1=8B?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..176a103 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -40,8 +40,8 @@ class Group(FormElement):
             if not child:
                 return raw_data
             index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-            name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
-            new_path = f"{path}/{name_for_child}" if path else name_for_child
+            new_path = f"{path}/{data['name']}" if path else data['name']
+            new_path = new_path.replace('includr_', 'include_')
             cls.encode_list(form, child, raw_data, index, new_path)
             return raw_data
         except Exception as err:
-- 
2.43.0


From dec0ed91fb81e83f916486bdb9ee0e6f51b72fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:39 +0000
Subject: [PATCH 44/45] =?UTF-8?q?fix:=20=D1=81=D1=82=D0=B0=D0=BD=D0=B4?=
 =?UTF-8?q?=D0=B0=D1=80=D1=82=D0=BD=D0=B0=D1=8F=20=D0=BA=D0=BE=D0=BC=D0=B0?=
 =?UTF-8?q?=D0=BD=D0=B4=D0=B0=20=D0=BA=D0=BD=D0=BE=D0=BF=D0=BA=D0=B8=20?=
 =?UTF-8?q?=D0=BD=D0=B5=20=D0=BF=D1=83=D1=82=D0=B0=D0=B5=D1=82=D1=81=D1=8F?=
 =?UTF-8?q?=20=D1=81=20=D0=BA=D0=BE=D0=BC=D0=B0=D0=BD=D0=B4=D0=BE=D0=B9=20?=
 =?UTF-8?q?=D1=84=D0=BE=D1=80=D0=BC=D1=8B=20=D1=81=20=D1=82=D0=B5=D0=BC=20?=
 =?UTF-8?q?=D0=B6=D0=B5=20=D0=BD=D0=BE=D0=BC=D0=B5=D1=80=D0=BE=D0=BC?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 4 +++-
 .../MetaDataObject/Form/FormElements4/FormElements4.py        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 23a61c9..9b32558 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -75,7 +75,9 @@ class FormElement:
             if command_link_offset is not None:
                 command_link = raw_data[command_link_offset]
                 if command_link and int(command_link[0]):
-                    command = form.commands_index.get(command_link[0])
+                    form_command = form.commands_index.get(command_link[0])
+                    if form_command and form_command['raw'][1] == command_link:  # у стандартных команд своя нумерация
+                        command = form_command['name']
 
             if not isinstance(name, str) or not name:
                 raise ExtException(message='form elem name not string')
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index 10c8b9c..ef35026 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -41,7 +41,7 @@ class FormElements4:
         self.commands_index = {}
         if self.form.commands:
             for command in self.form.commands:
-                self.commands_index[command['id']] = command['name']
+                self.commands_index[command['id']] = command
 
     def create_prop_index_by_name(self):
         self.props_index = {}
-- 
2.43.0


From 7b01dcaec2ae9bcaaa168ddade00da5584c42916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:39 +0000
Subject: [PATCH 45/45] =?UTF-8?q?fix:=20=D1=8D=D0=BB=D0=B5=D0=BC=D0=B5?=
 =?UTF-8?q?=D0=BD=D1=82=20=D0=BE=D0=B1=D1=8B=D1=87=D0=BD=D0=BE=D0=B9=20?=
 =?UTF-8?q?=D1=84=D0=BE=D1=80=D0=BC=D1=8B=20=D1=81=20=D0=BD=D0=B5=D1=81?=
 =?UTF-8?q?=D1=82=D1=80=D0=BE=D0=BA=D0=BE=D0=B2=D1=8B=D0=BC=20=D0=B8=D0=BB?=
 =?UTF-8?q?=D0=B8=20=D0=BF=D1=83=D1=81=D1=82=D1=8B=D0=BC=20=D0=B8=D0=BC?=
 =?UTF-8?q?=D0=B5=D0=BD=D0=B5=D0=BC=20=D0=B1=D0=BE=D0=BB=D1=8C=D1=88=D0=B5?=
 =?UTF-8?q?=20=D0=BD=D0=B5=20=D0=B7=D0=B0=D1=82=D0=B8=D1=80=D0=B0=D0=B5?=
 =?UTF-8?q?=D1=82=20=D0=B4=D0=B0=D0=BD=D0=BD=D1=8B=D0=B5=20=D1=81=D1=82?=
 =?UTF-8?q?=D1=80=D0=B0=D0=BD=D0=B8=D1=86=D1=8B?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 .../MetaDataObject/Form/FormElements27/FormElement.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
index c65415c..c17f298 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
@@ -61,7 +61,10 @@ class FormElement:
     @classmethod
     def decode(cls, form, path, elem_raw_data):
         metadata_type_uuid = elem_raw_data[0]
-        name = helper.str_decode(elem_raw_data[-2][1])
+        name = elem_raw_data[-2][1]
+        if not isinstance(name, str) or not helper.str_decode(name):
+            raise ExtException(message='form elem name not string', action='Form802Element.decode')
+        name = helper.str_decode(name)
         try:
             metadata_type = FormItemTypes(metadata_type_uuid)
         except ValueError:
-- 
2.43.0

