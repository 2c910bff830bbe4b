From c797f61fa464b47131851742d464960e6b74ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 001/104] fix: reserved words and unprintable breaks are never
 written as bare values

---
 src/StarFile.nw | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f4e6e89..5f7fe41 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2745,7 +2745,7 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
         instring = "\n"+self.do_wrapping(instring,hints["reformat_indent"])
     allowed_delimiters = set(self.string_delimiters)
     if len(instring)==0: allowed_delimiters.difference_update([None])
-    if len(instring) > (self.maxoutlength-2) or '\n' in instring:
+    if len(instring) > (self.maxoutlength-2) or re.search("[\n\r\f]",instring) is not None:
             allowed_delimiters.intersection_update(["\n;","'''",'"""'])
     [allowed_delimiters.difference_update([None]) for k in '[]{}\v\t ,' if k in instring]
     if len(instring)>0 and instring[0] in '_$#;(':
@@ -2754,6 +2754,10 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
             allowed_delimiters.difference_update([None])
     if len(instring)>5 and instring[:6].lower()=='global':
             allowed_delimiters.difference_update([None])
+    if instring.lower()[:5] in ('loop_','stop_'):
+            allowed_delimiters.difference_update([None])
+    if re.search("\\s",instring) is not None:   #includes non-ASCII white space
+            allowed_delimiters.difference_update([None])
     if '"' in instring: allowed_delimiters.difference_update(['"',None])
     if "'" in instring: allowed_delimiters.difference_update(["'",None])
     out_delimiter = "\n;"  #default (most conservative)
-- 
2.43.0


From 43c140b06768c94c7fcb8ee12d1580154be66b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 002/104] fix: a value containing a triple quote is not
 delimited by that triple quote

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 5f7fe41..b30f1c7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2760,6 +2760,8 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
             allowed_delimiters.difference_update([None])
     if '"' in instring: allowed_delimiters.difference_update(['"',None])
     if "'" in instring: allowed_delimiters.difference_update(["'",None])
+    if '"""' in instring or instring[-1:] == '"': allowed_delimiters.difference_update(['"""'])
+    if "'''" in instring or instring[-1:] == "'": allowed_delimiters.difference_update(["'''"])
     out_delimiter = "\n;"  #default (most conservative)
     if delimiter in allowed_delimiters:
         out_delimiter = delimiter
-- 
2.43.0


From 99c79551f1cc88df917d21f9a6992c3f2ab687dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 003/104] fix: text that looks like a folded or prefixed text
 field is protected when written

---
 src/StarFile.nw | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index b30f1c7..ea7669d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2772,12 +2772,13 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     # we are left with semicolon strings
     # use our protocols:
     maxlinelength = max([len(a) for a in instring.split('\n')])
-    if maxlinelength > self.maxoutlength:
+    if maxlinelength > self.maxoutlength or remove_line_folding(instring) != instring:
         protocol_string = apply_line_folding(instring)
     else:
         protocol_string = instring
     # now check for embedded delimiters
-    if "\n;" in protocol_string:
+    if re.search("[\n\r];",protocol_string) is not None or \
+       remove_line_prefix(protocol_string) != protocol_string:
         prefix = "CIF:"
         while prefix in protocol_string: prefix = prefix + ":"
         protocol_string = apply_line_prefix(protocol_string,prefix+"> ")
@@ -2832,13 +2833,13 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
     # first check that we need to do this
     lines = instring.split('\n')
     line_len = [len(l) for l in lines]
-    if max(line_len) < maxwraplength and re.match("\\[ \v\t\f]*\n",instring) is None:
+    if max(line_len) < maxwraplength and re.match(r"\\[ \v\t\f]*" + "\n",instring) is None:
         return instring
     outstring = "\\\n"   #header
     for l in lines:
         if len(l) < maxwraplength:
             outstring = outstring + l
-            if len(l) > 0 and l[-1]=='\\': #who'da thunk it?  A line ending with a backslash
+            if re.search(r"\\[ \v\t\f]*$",l) is not None: #who'da thunk it?  A line ending with a backslash
                     outstring = outstring + "\\\n"  #
             outstring = outstring + "\n"  #  put back the split character
         else:
@@ -2852,7 +2853,7 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
                     outstring = outstring + current_bit[:maxwraplength-1] + "\\\n"
                     current_bit = current_bit[maxwraplength-1:]
             outstring = outstring + current_bit
-            if current_bit[-1] == '\\':  #a backslash just happens to be here
+            if re.search(r"\\[ \v\t\f]*$",current_bit) is not None:  #a backslash just happens to be here
                 outstring = outstring + "\\\n"
             outstring = outstring + '\n'
     outstring = outstring[:-1]  #remove final newline
@@ -2895,7 +2896,7 @@ def apply_line_prefix(instring,prefix):
             print('No folding in input string...')
             not_header = instring
             outstring = prefix + "\\\n" + prefix
-        outstring = outstring + not_header.replace("\n","\n"+prefix)
+        outstring = outstring + re.sub("\r\n|\r|\n",lambda eol: eol.group()+prefix,not_header)
         return outstring
     raise StarError("Requested prefix starts with semicolon or contains a backslash: " + prefix)
 
@@ -2914,10 +2915,10 @@ def remove_line_prefix(instring):
         prefix_end = prefix_match.end('folding')
         # keep any line folding instructions
         if prefix_match.group('folding')[:2]=='\\\\':  #two backslashes
-            outstring = instring[prefix_match.end('folding')-1:].replace("\n"+prefix_text,"\n")
+            outstring = re.sub("([\r\n])"+re.escape(prefix_text),"\\1",instring[prefix_match.end('folding')-1:])
             return "\\" + outstring  #keep line folding first line
         else:
-            outstring = instring[prefix_match.end('folding')-1:].replace("\n"+prefix_text,"\n")
+            outstring = re.sub("([\r\n])"+re.escape(prefix_text),"\\1",instring[prefix_match.end('folding')-1:])
             return outstring[1:]   #drop first line ending, no longer necessary
     else:
         return instring
-- 
2.43.0


From 72fac7e26acd09ab3a5ffcc6da1911c49da80a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 004/104] fix: table keys are written with a delimiter they do
 not contain

---
 src/StarFile.nw | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ea7669d..ad7d768 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2614,6 +2614,17 @@ we do not insert a line break before the top-level compound delimiter.  If hints
 containing an entry 'delimiter' that requests a particular delimiter.
 
 <<Format a data value>>=
+def _format_key(self,key):
+    """Return `key` delimited for use as a key in a table"""
+    if re.search("[\n\r\f]",key) is None:
+        for delimiter in ["'",'"']:
+            if delimiter not in key:
+                return delimiter + key + delimiter
+    for delimiter in ["'''",'"""']:
+        if delimiter not in key and key[-1] != delimiter[0]:
+            return delimiter + key + delimiter
+    raise StarError('Table key %s cannot be delimited' % repr( key ))
+
 def format_value(self,itemvalue,stringsink,compound=False,hints={}):
     """Format a Star data value"""
     global have_numpy
@@ -2638,11 +2649,11 @@ def format_value(self,itemvalue,stringsink,compound=False,hints={}):
        stringsink.write('{',newindent=True,mustbreak=compound,startcol=startcol)  #start a new line inside
        items = list(itemvalue.items())
        if len(items)>0:
-           stringsink.write("'"+items[0][0]+"'"+':',canbreak=True)
+           stringsink.write(self._format_key(items[0][0])+':',canbreak=True)
            self.format_value(items[0][1],stringsink)
            for key,value in items[1:]:
                stringsink.write(self.list_delimiter)
-               stringsink.write("'"+key+"'"+":",canbreak=True)
+               stringsink.write(self._format_key(key)+":",canbreak=True)
                self.format_value(value,stringsink)   #never break between key and value
        stringsink.write('}',unindent=True)
     elif isinstance(itemvalue,(float,int,long)) or \
-- 
2.43.0


From 4c3e80437fa67dc895d8da935ff7929bb67a9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 005/104] fix: the white space after a value is not dropped
 when the line is already long

---
 src/StarFile.nw | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ad7d768..2d92e1f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2456,8 +2456,6 @@ class CIFStringIO(StringIO):
                 StringIO.write(self,temp_string)
                 self.currentpos = self.indentlist[-1]
                 self.last_char = temp_string[-1]
-            else:        #assume a break will be forced on next value
-                output_delimiter = False    #the line break becomes the delimiter
         #try to match requested column
         if startcol > 0:
             if self.currentpos < startcol:
-- 
2.43.0


From 44707a255d8a85642043ea9e96780eddf471e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 006/104] fix: WriteOut accepts a maximum output line length

---
 src/StarFile.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 2d92e1f..330f033 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -228,6 +228,7 @@ def __init__(self,datasource=None,standard='CIF',blocktype = StarBlock,
     self.scoping = scoping  #will trigger setting of child table
     self.blocktype = blocktype
     self.master_template = {}   #for outputting
+    self.maxoutlength = 2048
     self.set_grammar('2.0')
     self.set_characterset(characterset)
     if isinstance(datasource,BlockCollection):
@@ -843,8 +844,8 @@ initialising the file.
         `saves_after` inserts all save frames after the given dataname,
         which allows less important items to appear later.  Useful in conjunction with a
         template for dictionary files."""
-        if maxoutlength != 0:
-            self.SetOutputLength(maxoutlength)
+        if maxoutlength == 0:
+            maxoutlength = self.maxoutlength
         if not comment:
             comment = self.header_comment
         outstring = StringIO()
@@ -855,7 +856,7 @@ initialising the file.
         for b in self.dictionary.values():
             b.set_grammar(self.grammar)
             b.formatting_hints = self.master_template
-            b.SetOutputLength(wraplength,self.maxoutlength)
+            b.SetOutputLength(wraplength,maxoutlength)
         # loop over top-level
         # monitor output
         all_names = list(self.child_table.keys())   #i.e. lower case
-- 
2.43.0


From 69646dac2dcdfd31b627ffd2f3b1c9a935d44d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 007/104] fix: AddLoopName removes a loop that it leaves
 without names

---
 src/StarFile.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 330f033..27000c7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2107,6 +2107,11 @@ def AddLoopName(self,oldname, newname):
         raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (newname,loop_len))
     # remove from any other loops
     [self.loops[a].remove(lower_newname) for a in self.loops if lower_newname in self.loops[a]]
+    # remove empty loops
+    empty_loops = [a for a in self.loops.keys() if len(self.loops[a])==0]
+    for a in empty_loops:
+        self.item_order.remove(a)
+        del self.loops[a]
     # and add to this loop
     self.loops[loop_no].append(lower_newname)
     # remove from item_order if present
-- 
2.43.0


From 930b7e160389044ef6d1f87eebff140f6178ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 008/104] fix: AddLoopName restores provide_value when a column
 cannot be found

---
 src/StarFile.nw | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 27000c7..d6feb2d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2101,8 +2101,10 @@ def AddLoopName(self,oldname, newname):
     # check length
     old_provides = self.provide_value
     self.provide_value = False
-    loop_len = len(self[oldname])
-    self.provide_value = old_provides
+    try:
+        loop_len = len(self[oldname])
+    finally:
+        self.provide_value = old_provides
     if len(self[newname]) != loop_len:
         raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (newname,loop_len))
     # remove from any other loops
-- 
2.43.0


From 3c56550bab9adcbbb29dd4384eeb0b68902b8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 009/104] fix: CreateLoop loops each name once, needs at least
 one and converts values together

---
 src/StarFile.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index d6feb2d..31f8fe4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2035,6 +2035,8 @@ def CreateLoop(self,datanames,order=-1,length_check=True):
        out. A single-row loop will be created if the provided datanames are all
        non-lists. A loop counts as a single position."""
 
+       if len(datanames) == 0 or len(set([d.lower() for d in datanames])) < len(datanames):
+           raise ValueError('A loop needs one or more different datanames, not %s' % repr( datanames ))
        if length_check:
            # check lengths: these datanames should exist
            listed_values = [a for a in datanames if isinstance(self[a],list) and not isinstance(self[a],StarList)]
@@ -2046,7 +2048,7 @@ def CreateLoop(self,datanames,order=-1,length_check=True):
                raise ValueError('Request to loop datanames where some are single values and some are not')
            else:    #all are unlisted, turn into lists
                for d in datanames:
-                   self[d] = [self[d]]
+                   self.block[d.lower()] = [[a] for a in self.block[d.lower()]]
        # store as lower case
        lc_datanames = [d.lower() for d in datanames]
        # remove these datanames from all other loops
-- 
2.43.0


From e525b19cbfdd8db3653f050b70ccb679bf0a2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 010/104] fix: LoopBlock looks up names in any case and does
 not expose its name list

---
 src/StarFile.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 31f8fe4..3c1d2bb 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1243,7 +1243,7 @@ def __init__(self,parent_block,dataname):
 
 <<Add emulation of a mapping type>>=
 def keys(self):
-    return self.parent_block.loops[self.loop_no]
+    return self.parent_block.loops[self.loop_no][:]
 
 def values(self):
     return [self.parent_block[a] for a in self.keys()]
@@ -1255,7 +1255,7 @@ def items(self):
 def __getitem__(self,dataname):
     if isinstance(dataname,int):   #a packet request
         return self.GetPacket(dataname)
-    if dataname in self.keys():
+    if dataname in self:
         return self.parent_block[dataname]
     else:
         raise KeyError('%s not in loop block' % dataname)
@@ -1265,7 +1265,7 @@ def __setitem__(self,dataname,value):
     self.parent_block.AddLoopName(self.keys()[0],dataname)
 
 def __contains__(self,key):
-    return key in self.parent_block.loops[self.loop_no]
+    return isinstance(key,(unicode,str)) and key.lower() in self.parent_block.loops[self.loop_no]
 
 def has_key(self,key):
     return key in self
-- 
2.43.0


From 292ee7b33fa041072342cd7644462894516a1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 011/104] fix: a column of the wrong length is refused by a
 loop before it is stored

---
 src/StarFile.nw | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 3c1d2bb..901b7fe 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1261,6 +1261,9 @@ def __getitem__(self,dataname):
         raise KeyError('%s not in loop block' % dataname)
 
 def __setitem__(self,dataname,value):
+    loop_len = len(self.parent_block.GetItemValue(self.keys()[0]))
+    if isinstance(value,(unicode,str)) or len(value) != loop_len:
+        raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (dataname,loop_len))
     self.parent_block[dataname] = value
     self.parent_block.AddLoopName(self.keys()[0],dataname)
 
-- 
2.43.0


From 50a7d8796141d03ac4e46979671f87ecc7fc95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 012/104] fix: a packet that lacks a value is not partly added

---
 src/StarFile.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 901b7fe..c5dd729 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1348,10 +1348,11 @@ advisable to create a new packet by copying an old packet.
 
 <<Add a packet>>=
 def AddPacket(self,packet):
+    new_values = []
     for myitem in self.parent_block.loops[self.loop_no]:
-        old_values = self.parent_block[myitem]
-        old_values.append(packet.__getattribute__(myitem))
-        self.parent_block[myitem] = old_values
+        new_values.append((myitem,list(self.parent_block[myitem]) + [packet.__getattribute__(myitem)]))
+    for myitem,column in new_values:
+        self.parent_block[myitem] = column
 
 @ Return order of items - this is just a copy of the list of datanames
 making up this loop.
-- 
2.43.0


From cc0ff8ce4df1956758962d387da6271e9b25d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 013/104] fix: RemoveKeyedPacket works on columns that were
 read from a file

---
 src/StarFile.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index c5dd729..23f63b0 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2387,10 +2387,10 @@ def RemoveKeyedPacket(self,keyname,keyvalue):
     packet_coord = list(self[keyname]).index(keyvalue)
     loopnames = self.GetLoopNames(keyname)
     for dataname in loopnames:
-        self.block[dataname][0] = list(self.block[dataname][0])
-        del self.block[dataname][0][packet_coord]
-        self.block[dataname][1] = list(self.block[dataname][1])
-        del self.block[dataname][1][packet_coord]
+        for part in (0,1):
+            if self.block[dataname][part] is not None:
+                self.block[dataname][part] = list(self.block[dataname][part])
+                del self.block[dataname][part][packet_coord]
 
 @ \section{Output}
 
-- 
2.43.0


From b71379fb6b73866fd0406ba4f40ab2a9fc3b0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 014/104] fix: copies of blocks share nothing with the original

---
 src/CifFile_module.nw | 2 +-
 src/StarFile.nw       | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 341da4b..5cd619b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -256,7 +256,7 @@ def __setitem__(self,key,value):
 
 def copy(self):
     newblock = super(CifBlock,self).copy()
-    return self.copy.im_class(newblock)   #catch inheritance
+    return self.__class__(newblock)   #catch inheritance
 
 @ This function was added for the dictionary validation routines.  It
 will return a list where each member is itself a list of item names,
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 23f63b0..7bb8395 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -92,6 +92,7 @@ except:
     from urllib.request import urlopen
     from urllib.parse import urlparse,urlunparse
 import re,os
+import copy
 import textwrap
 
 try:
@@ -1487,11 +1488,11 @@ def __init__(self,data = (), maxoutlength=2048, wraplength=80, overwrite=True,
         for item in data:
             self.AddLoopItem(item)
     elif isinstance(data,StarBlock):
-        self.block = data.block.copy()
+        self.block = copy.deepcopy(data.block)
         self.item_order = data.item_order[:]
         self.true_case = data.true_case.copy()
         # loops as well
-        self.loops = data.loops.copy()
+        self.loops = copy.deepcopy(data.loops)
 
 def setmaxnamelength(self,maxlength):
     """Set the maximum allowable dataname length (-1 for no check)"""
@@ -1648,11 +1649,11 @@ def clear(self):
 # doesn't appear to work
 def copy(self):
     newcopy = StarBlock()
-    newcopy.block = self.block.copy()
+    newcopy.block = copy.deepcopy(self.block)
     newcopy.loops = []
     newcopy.item_order = self.item_order[:]
     newcopy.true_case = self.true_case.copy()
-    newcopy.loops = self.loops.copy()
+    newcopy.loops = copy.deepcopy(self.loops)
 #    return self.copy.im_class(newcopy)   #catch inheritance
     return newcopy
 
-- 
2.43.0


From b22332e0457aa2d2a66f4ce7f1fa57d17dc6a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 015/104] fix: a block collection can be copied

---
 src/StarFile.nw | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 7bb8395..0c3731a 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -374,15 +374,17 @@ def clear(self):
     self.block_input_order = []
 
 def copy(self):
-    newcopy = self.dictionary.copy()  #all blocks
+    newcopy = BlockCollection(standard=self.standard,blocktype=self.blocktype)
+    newcopy.dictionary = self.dictionary.copy()  #all blocks
     for k,v in self.dictionary.items():
-        newcopy[k] = v.copy()
-    newcopy = BlockCollection(newcopy)
+        newcopy.dictionary[k] = v.copy()
     newcopy.child_table = self.child_table.copy()
     newcopy.lower_keys = self.lower_keys.copy()
-    newcopy.block_input_order = self.block_input_order.copy()
-    newcopy.characterset = self.characterset
-    newcopy.SetTemplate(self.master_template.copy())
+    newcopy.block_input_order = self.block_input_order[:]
+    newcopy.set_grammar(self.grammar)
+    newcopy.set_characterset(self.characterset)
+    newcopy.master_template = copy.deepcopy(self.master_template)
+    newcopy.header_comment = self.header_comment
     newcopy.scoping = self.scoping  #this sets visible keys
     return newcopy
 
-- 
2.43.0


From 12e63c2070e160f8d0486bd8771aa3e8cd82ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 016/104] fix: a block that is hidden by scoping can be deleted

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 0c3731a..edfc44d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -332,7 +332,7 @@ def __delitem__(self,key):
     del self.child_table[lowerkey]
     try:
         self.visible_keys.remove(lowerkey)
-    except KeyError:
+    except ValueError:
         pass
     self.lower_keys.remove(lowerkey)
     self.block_input_order.remove(lowerkey)
-- 
2.43.0


From a7972bd633194c6bcd5319c53a23f357f8ff1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 017/104] fix: a block with a missing parent is refused, not
 half registered

---
 src/StarFile.nw | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index edfc44d..0af0503 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -543,6 +543,8 @@ def NewBlock(self,blockname,blockcontents=None,fix=True,parent=None):
         newblockname = re.sub('[  \t]','_',blockname)
     else: newblockname = blockname
     new_lowerbn = newblockname.lower()
+    if parent is not None and parent.lower() not in self.lower_keys:
+        raise StarError('Parent block %s does not exist for child %s' % (parent,newblockname))
     if new_lowerbn in self.lower_keys:   #already there
         if self.standard is not None:
            toplevelnames = [a[0] for a in self.child_table.items() if a[1].parent==None]
@@ -557,6 +559,8 @@ def NewBlock(self,blockname,blockcontents=None,fix=True,parent=None):
                   parent = replace_name
            else:
               raise StarError( "Attempt to replace existing block " + blockname)
+        elif parent is not None and (parent.lower() == new_lowerbn or self.is_child_of_parent(new_lowerbn,parent)):
+           raise StarError('Block %s cannot replace its own parent %s' % (newblockname,parent))
         else:
            del self[new_lowerbn]
     self.dictionary.update({new_lowerbn:blockcontents})
@@ -566,14 +570,9 @@ def NewBlock(self,blockname,blockcontents=None,fix=True,parent=None):
        self.child_table[new_lowerbn]=self.PC(newblockname,None)
        self.visible_keys.append(new_lowerbn)
     else:
-       if parent.lower() in self.lower_keys:
-          if self.scoping == 'instance':
-             self.child_table[new_lowerbn]=self.PC(newblockname,parent.lower())
-          else:
-             self.child_table[new_lowerbn]=self.PC(newblockname,parent.lower())
-             self.visible_keys.append(new_lowerbn)
-       else:
-           print('Warning:Parent block %s does not exist for child %s' % (parent,newblockname))
+       self.child_table[new_lowerbn]=self.PC(newblockname,parent.lower())
+       if self.scoping != 'instance':
+          self.visible_keys.append(new_lowerbn)
     self[new_lowerbn].set_grammar(self.grammar)
     self[new_lowerbn].set_characterset(self.characterset)
     self[new_lowerbn].formatting_hints = self.master_template
-- 
2.43.0


From be9d68030e5c82b97af430925156675b10f16afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 018/104] fix: merging over existing blocks does not list them
 twice

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 0af0503..85d0d83 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -722,8 +722,8 @@ def merge_fast(self,new_bc,parent=None):
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
     self.dictionary.update(new_bc.dictionary)
     self.lower_keys.update(new_bc.lower_keys)
-    self.visible_keys += (list(new_bc.lower_keys))
-    self.block_input_order += new_bc.block_input_order
+    self.visible_keys += [a for a in new_bc.lower_keys if a not in self.visible_keys]
+    self.block_input_order += [a for a in new_bc.block_input_order if a not in self.block_input_order]
     #print('Block input order now:' + repr(self.block_input_order))
     self.child_table.update(new_bc.child_table)
     if parent_name is not None:     #redo the child_table entries
-- 
2.43.0


From dd0ac90b1d3785fc440fa828bbce158a366d3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 019/104] fix: collections made from part of another list their
 blocks for output

---
 src/StarFile.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 85d0d83..f200e8f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -436,6 +436,7 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
         newbc.child_table.update({block_lower:self.PC(self.child_table[block_lower].block_id,None)})
         newbc.lower_keys.add(block_lower)
         newbc.dictionary.update({block_lower:self.dictionary[block_lower]})
+    newbc.block_input_order = [a for a in self.block_input_order if a in newbc.lower_keys]
     newbc.scoping = scoping
     return newbc
 
@@ -492,7 +493,7 @@ def makebc(self,namelist,scoping='dictionary'):
     newbc.lower_keys = set([a[0] for a in proto_child_table])
     newbc.dictionary = dict((a[0],self.dictionary[a[0]]) for a in proto_child_table)
     newbc.scoping = scoping
-    newbc.block_input_order = block_lower
+    newbc.block_input_order = [a for a in self.block_input_order if a in newbc.lower_keys]
     return newbc
 
 
-- 
2.43.0


From 302d14864629eba3bd40a9250df56b0b4aadaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 020/104] fix: the list of block names handed out is not the
 collection's own

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f200e8f..9f16bef 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -354,7 +354,7 @@ def __iter__(self):
 
 # TODO: handle different case
 def keys(self):
-    return self.visible_keys
+    return self.visible_keys[:]
 
 # Note that has_key does not exist in 3.5
 def has_key(self,key):
-- 
2.43.0


From f4cfa36bd9ef112e00726ebf00095dfa9374a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 021/104] fix: a refused maximum name length is not kept

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 9f16bef..f78f144 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1498,11 +1498,11 @@ def __init__(self,data = (), maxoutlength=2048, wraplength=80, overwrite=True,
 
 def setmaxnamelength(self,maxlength):
     """Set the maximum allowable dataname length (-1 for no check)"""
-    self.maxnamelength = maxlength
     if maxlength > 0:
-        bad_names = [a for a in self.keys() if len(a)>self.maxnamelength]
+        bad_names = [a for a in self.keys() if len(a)>maxlength]
         if len(bad_names)>0:
             raise StarError('Datanames too long: ' + repr( bad_names ))
+    self.maxnamelength = maxlength
 
 def set_characterset(self,characterset):
     """Set the characterset for checking datanames: may be `ascii` or `unicode`"""
-- 
2.43.0


From 9f3fd4b05e1fe9a6ab5078eb372fb217cc3af6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 022/104] fix: printing a block restores the kind of value it
 provides

---
 src/StarFile.nw | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f78f144..edc3965 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2580,7 +2580,14 @@ tab stop at 40 characters.  And of course, we stop providing values.
 
 <<Print a complete block>>=
 def printsection(self,instring='',blockstart="",blockend="",indent=0,finish_at='',start_from=''):
+    old_provides = self.provide_value
     self.provide_value = False
+    try:
+        return self._printsection(instring,blockstart,blockend,indent,finish_at,start_from)
+    finally:
+        self.provide_value = old_provides
+
+def _printsection(self,instring,blockstart,blockend,indent,finish_at,start_from):
     # first make an ordering
     self.create_ordering(finish_at,start_from)  #create self.output_order
     # now do it...
-- 
2.43.0


From 635acdff81448f73b25bab1c89e8a004d655cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 023/104] fix: reading an empty file or into no particular
 object returns a file object

---
 src/StarFile.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index edc3965..536e62e 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1034,14 +1034,14 @@ def ReadStar(filename,prepared = None, maxlength=-1,
 
     """
 
-    # save desired scoping
-    save_scoping = prepared.scoping
     from . import YappsStarParser_1_1 as Y11
     from . import YappsStarParser_1_0 as Y10
     from . import YappsStarParser_2_0 as Y20
     from . import YappsStarParser_STAR2 as YST
     if prepared is None:
         prepared = StarFile()
+    # save desired scoping
+    save_scoping = prepared.scoping
     if grammar == "auto" or grammar is None:
         try_list = [('2.0',Y20),('1.1',Y11),('1.0',Y10)]
     elif grammar == '1.0':
@@ -1096,7 +1096,8 @@ def ReadStar(filename,prepared = None, maxlength=-1,
                     raise StarError("Bad input encoding (must be utf8 or ascii)")
         my_uri = ""
     if not text:      # empty file, return empty block
-        return prepared.set_uri(my_uri)
+        prepared.set_uri(my_uri)
+        return prepared
     # filter out non-ASCII characters in CBF files if required.  We assume
     # that the binary is enclosed in a fixed string that occurs
     # nowhere else.
-- 
2.43.0


From a789d6aa0a7a8ba9ab6016b64b343a652418620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 024/104] fix: permissive reading decodes the bytes already
 read

---
 src/StarFile.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 536e62e..6c092b5 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1073,11 +1073,12 @@ def ReadStar(filename,prepared = None, maxlength=-1,
             my_uri = urlunparse(relpath)
         # print("Full URL is: " + my_uri)
         filestream = urlopen(my_uri)
+        raw_text = filestream.read()
         try:
-            text = filestream.read().decode('utf-8-sig')
+            text = raw_text.decode('utf-8-sig')
         except UnicodeDecodeError:
             if permissive:
-                text = filestream.read().decode('latin1')
+                text = raw_text.decode('latin1')
                 print("WARNING: %s violates standard (latin1 encoding instead of UTF8)." % filename)
             else:
                 raise StarError("%s: bad encoding (must be utf8 or ascii)" % filename)
@@ -1090,7 +1091,7 @@ def ReadStar(filename,prepared = None, maxlength=-1,
                 text = text.decode('utf-8-sig')  #CIF is always ascii/utf8
             except UnicodeDecodeError:
                 if permissive:
-                    text = filestream.read().decode('latin1')
+                    text = text.decode('latin1')
                     print("WARNING: text violates CIF standard (latin1 encoding instead of UTF8)")
                 else:
                     raise StarError("Bad input encoding (must be utf8 or ascii)")
-- 
2.43.0


From ca4e271d8360f66832b16779d1a815345ee9aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 025/104] fix: a file that fails under one grammar leaves
 nothing behind for the next

---
 src/YappsStarParser.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index e156e9c..7e8f73f 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -338,11 +338,11 @@ I do not think it is useful to allow square brackets in list values.
 # now the rules
 
 rule input@<<prepared>>: ( ((
-            dblock@<<prepared>>         {{allblocks = prepared; allblocks.merge_fast(dblock)}}
+            dblock@<<prepared>>         {{allblocks = dblock}}
             (
             dblock@<<prepared>>         {{allblocks.merge_fast(dblock)}} #
             )*
-            END
+            END                         {{prepared.merge_fast(allblocks); allblocks = prepared}}
             )
             |
             (
@@ -494,11 +494,11 @@ dictionary files that contain duplicate datablocks.
 # now the rules
 
 rule input@<<prepared>>: ( ((
-            dblock@<<prepared>>         {{allblocks = prepared;allblocks.merge_fast(dblock)}}
+            dblock@<<prepared>>         {{allblocks = dblock}}
             (
             dblock@<<prepared>>         {{allblocks.merge_fast(dblock)}} #
             )*
-            END
+            END                         {{prepared.merge_fast(allblocks); allblocks = prepared}}
             )
             |
             (
-- 
2.43.0


From 2d4815e5ac22190839b090371c13ace6f67cd9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 026/104] fix: merging blocks keeps the printed spelling only
 of names that were merged

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 6c092b5..78c859e 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3183,7 +3183,7 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
        for one_loop in new_block.loops.values():
            self.CreateLoop(one_loop)
        # we have lost case information
-       self.true_case.update(new_block.true_case)
+       self.true_case.update([a for a in new_block.true_case.items() if a[0] in self.block])
     elif mode == 'replace':
        newkeys = list(new_block.keys())
        for ma in match_att:
@@ -3198,7 +3198,7 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
        for one_loop in new_block.loops.values():
            self.CreateLoop(one_loop)
        # we have lost case information
-       self.true_case.update(new_block.true_case)
+       self.true_case.update([a for a in new_block.true_case.items() if a[0] in self.block])
     elif mode == 'overlay':
        print('Overlay mode, current overwrite is %s' % self.overwrite)
        raise StarError('Overlay block merge mode not implemented')
-- 
2.43.0


From df7896e9db7b69cab70869289a8eef93526b73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 027/104] fix: WriteOut finds the blocks of a requested order
 whatever their case

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 78c859e..c5234a7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -865,6 +865,8 @@ initialising the file.
         all_names = list(self.child_table.keys())   #i.e. lower case
         if blockorder is None:
             blockorder = self.block_input_order
+        else:
+            blockorder = [b.lower() for b in blockorder]
         top_block_names = [(a,self.child_table[a].block_id) for a in blockorder if self.child_table[a].parent is None]
         for blockref,blockname in top_block_names:
             # print('Writing %s, ' % blockname + repr(self[blockref]))
-- 
2.43.0


From 93ad29663ec005c5bfddf315db54c937ca313ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 028/104] fix: a dREL triple-quoted string ends at its first
 closing quotes

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index b0855ee..4e7e61f 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -151,7 +151,7 @@ def t_STRPREFIX(t):
 
 # try longstring first as otherwise the '' will match a shortstring
 def t_LONGSTRING(t):
-    r"('''([^\\]|(\\.))*''')|(\"\"\"([^\\]|(\\.))*\"\"\")"
+    r"('''([^\\]|(\\(.|\n)))*?''')|(\"\"\"([^\\]|(\\(.|\n)))*?\"\"\")"
     return t
 
 
-- 
2.43.0


From 584b9669e05b3e0db6fe4c44cd343c33980859c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 029/104] fix: an escaped quote does not end a dREL string

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index 4e7e61f..83b0af4 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -156,7 +156,7 @@ def t_LONGSTRING(t):
 
 
 def t_SHORTSTRING(t):
-    r"('([^'\n]|(\\.))*')|(\"([^\"\n]|(\\.))*\")"
+    r"('([^\\'\n]|(\\.))*')|(\"([^\\\"\n]|(\\.))*\")"
     return t
 
 # special to avoid any ambiguity
-- 
2.43.0


From 62c920e4d2088b88cc7d0755f2667f5f3f4f4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 030/104] fix: a variable whose name starts with 'if' may
 follow 'else' in dREL

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index 83b0af4..addf6e4 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -161,7 +161,7 @@ def t_SHORTSTRING(t):
 
 # special to avoid any ambiguity
 def t_ELSEIF(t):
-    r"[Ee][Ll][Ss][Ee]\s+[Ii][Ff]"
+    r"[Ee][Ll][Ss][Ee]\s+[Ii][Ff](?![a-zA-Z0-9_$])"
     return t
 
 reserved = {
-- 
2.43.0


From e82ef207ec5bbd45a91644a947f42ffc23ab02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 031/104] fix: dREL line numbers count lines, not blanks

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index addf6e4..c190a21 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -216,7 +216,7 @@ def t_ESCAPE_NEWLINE(t):
 
 def t_INITIAL_NEWLINE(t):
     r'\n[\n \t]*'
-    t.lexer.lineno+=len(t.value)
+    t.lexer.lineno+=t.value.count('\n')
     return t
 
 def t_COMMENT(t):
-- 
2.43.0


From 6f1ba4e566602e140fdddb512a805ed8916f1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 032/104] fix: a dREL syntax error inside parentheses does not
 upset the next parse

---
 src/drel/drel_ast_yacc.py | 1 +
 src/drel/drel_lex.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index c3204f6..b4c608b 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -576,6 +576,7 @@ def p_error(p):
     except:
         pass
     parser.restart()
+    lexer.begin('INITIAL')   #in case we were inside parentheses
     raise SyntaxError
 
 #lexer = drel_lex.lexer
diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index c190a21..eb31999 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -62,6 +62,7 @@ t_paren_ignore = ' \t\n'
 
 def t_error(t):
     print('Illegal character %s' % repr(t.value[0]))
+    t.lexer.begin('INITIAL')   #in case we were inside parentheses
 
 t_POWER = r'\*\*'
 t_ISEQUAL = r'=='
-- 
2.43.0


From 69c0fe00c23c52024b9b34dcbf57c08919111afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 033/104] fix: the default of the first dREL function argument
 is kept

---
 src/drel/drel_ast_yacc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index b4c608b..2a435ed 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -546,7 +546,7 @@ def p_funcdef(p):
 def p_arglist(p):
     ''' arglist : ID ":" list_display
                 | arglist "," ID ":" list_display '''
-    if len(p) == 4: p[0] = [(p[1],p[2])]
+    if len(p) == 4: p[0] = [(p[1],p[3])]
     else: p[0] = p[1] + [(p[3],p[5])]
 
 # This production allows us to insert optional newlines
-- 
2.43.0


From be676490f75e6a756d4e2b04de593216a4e081a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 034/104] fix: dREL slices without a start or finish, with a
 step, or among several

---
 src/drel/drel_ast_yacc.py | 13 +++++++------
 src/drel/py_from_ast.nw   |  6 +++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index 2a435ed..b5bb4ec 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -353,16 +353,14 @@ def p_short_slice(p):
     if len(p) == 2: p[0] = []
     if len(p) == 4: p[0] = [p[1],p[3]]
     if len(p) == 3 and p[1] == ":":
-        p[0] = [0,p[2]]
+        p[0] = [["EXPR",["LITERAL","None"]],p[2]]
     if len(p) == 3 and p[2] == ":":
         p[0] = [p[1]]
 
 def p_long_slice(p):
     '''long_slice : short_slice ":" expression '''
-    if len(p) == 4:
-        p[0] = p[1] + [p[3]]
-    else:
-        p[0] = p[1]
+    not_given = ["EXPR",["LITERAL","None"]]
+    p[0] = p[1] + [not_given]*(2-len(p[1])) + [p[3]]
 
 def p_slice_list(p):
     ''' slice_list : slice_item
@@ -375,7 +373,10 @@ def p_slice_list(p):
 def p_slice_item(p):
     ''' slice_item : expression
                    | proper_slice '''
-    p[0] = p[1]
+    if p[1][0] == "EXPR":
+        p[0] = p[1]
+    else:
+        p[0] = p[1][0]
 
 def p_call(p):
     '''call : ID OPEN_PAREN CLOSE_PAREN
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 104e871..8aa3974 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -331,10 +331,10 @@ mentioned so that we can create a dependency tree.
         outstring = traverse_ast(in_node[1]) + "["
         slice_list = in_node[2]
         for one_slice in slice_list:
-            if one_slice[0] == "EXPR":   #not a slice as such
-                outstring += traverse_ast(one_slice)
-            elif len(one_slice) == 0:
+            if len(one_slice) == 0:
                 outstring += ":"
+            elif one_slice[0] == "EXPR":   #not a slice as such
+                outstring += traverse_ast(one_slice)
             elif len(one_slice) >0:    # at least start
                 outstring += traverse_ast(one_slice[0]) + ":"
                 if len(one_slice) >1:    #start,finish only
-- 
2.43.0


From 03375cbbed05418ded40e0a41c92b210628b6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 035/104] fix: StarScan.cleanup returns None and leaves no
 stale pointers

---
 src/lib/py_star_scan.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 46aeae3..84b831d 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -153,12 +153,14 @@ clear_mem(void)
 {
 int i;
 for(i=0;i<current_len;i++){
-  printf("Clearing token %d\n",i);
     Py_XDECREF(value_list[i]);
     }
 free(token_list);
 free(value_list);
 free(line_no_list);
+token_list = NULL;
+value_list = NULL;
+line_no_list = NULL;
 current_len = 0;
 alloc_mem = 0;
 }
@@ -167,7 +169,7 @@ static PyObject *
 drop_mem(PyObject * self, PyObject * args)
 {
 clear_mem();
-return NULL;
+return(Py_BuildValue(""));
 }
 
 /* For error reporting we need to supply the last 10 tokens */
-- 
2.43.0


From 094ec634a17d341c58ecfad6042243e4e49d23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 036/104] fix: StarScan: a token that cannot be decoded raises,
 and token text is freed

---
 src/lib/py_star_scan.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 84b831d..a9b25c8 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -126,6 +126,8 @@ save_str = (char *) malloc((yyleng+1)*sizeof(char *));
 /* printf("Got memory for string %s length %d at %x\n",yytext,yyleng+1,save_str);*/
 strncpy(save_str,yytext,yyleng+1);
 value_list[current_len] = PyUnicode_FromString(save_str); /* new reference */
+free(save_str);
+if(value_list[current_len]==NULL) return NULL;
 token_list[current_len] = tok_id;
 line_no_list[current_len] = yylineno;
 current_len++;
@@ -139,7 +141,11 @@ get_token(PyObject * self, PyObject * args)
 int list_pos; 
 if(!(PyArg_ParseTuple(args,"i",&list_pos))) return NULL;
 /* printf("Getting token %d\n",list_pos);*/
-if(list_pos==current_len) flex_scan(self,args); 
+if(list_pos==current_len) {
+    PyObject * scanned = flex_scan(self,args);
+    if(scanned==NULL) return NULL;
+    Py_DECREF(scanned);
+    }
 if(list_pos<current_len)
     return(Py_BuildValue("(iisO)",line_no_list[list_pos],0,tokens[token_list[list_pos]],value_list[list_pos]));
 else {
-- 
2.43.0


From 0bb91cb490a99ca323c9d0d86d46dfbd63514c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 037/104] fix: StarScan.prepare raises when the text has no
 UTF-8 form

---
 src/lib/py_star_scan.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index a9b25c8..8e048fa 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -63,13 +63,16 @@ static PyObject *
 get_input(PyObject * self, PyObject * args) 
 {
 PyObject * str_arg;  /* A python string object in theory */
+char * new_input;    /* The bytes of this string */
 int i;
 if(!(PyArg_ParseTuple(args,"U",&str_arg))) return NULL;
 #if PY_MAJOR_VERSION >= 3
- input_string = PyUnicode_AsUTF8(str_arg);
+ new_input = (char *) PyUnicode_AsUTF8(str_arg);
 #else
- input_string = PyString_AsString(str_arg);
+ new_input = PyString_AsString(str_arg);
 #endif
+if(new_input==NULL) return NULL;
+input_string = new_input;
 string_pos = 0;
 in_string_len = strlen(input_string);
 star_clear();
-- 
2.43.0


From ce547f3012336ff6670e29e08a340f8568ace16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 038/104] fix: yylineno is an int in the flex scanner

---
 src/lib/star_scanner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/star_scanner.h b/src/lib/star_scanner.h
index f880b7e..d77098d 100644
--- a/src/lib/star_scanner.h
+++ b/src/lib/star_scanner.h
@@ -20,7 +20,7 @@ extern int star_scanner(void);
 extern void star_clear(void);
 extern char * yytext;
 extern size_t yyleng;
-extern size_t yylineno;
+extern int yylineno;
 #else
 extern char * input_string;
 extern size_t string_pos;
-- 
2.43.0


From b35a328e2e8a220b4200be33cee630ca3562e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 039/104] fix: StarScan.prepare: a NUL character is an error,
 not the end of the text

---
 src/lib/py_star_scan.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 8e048fa..5240197 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -72,6 +72,12 @@ if(!(PyArg_ParseTuple(args,"U",&str_arg))) return NULL;
  new_input = PyString_AsString(str_arg);
 #endif
 if(new_input==NULL) return NULL;
+#if PY_MAJOR_VERSION >= 3
+if(PyUnicode_FindChar(str_arg,0,0,PyUnicode_GetLength(str_arg),1)!=-1) {
+    PyErr_SetString(PyExc_ValueError,"embedded null character");
+    return NULL;
+    }
+#endif
 input_string = new_input;
 string_pos = 0;
 in_string_len = strlen(input_string);
-- 
2.43.0


From ef977d8391bb16af5ed440b30398a7294e9e5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 040/104] fix: compiled scanner: characters not allowed in text
 fields are an error, not printed and lost

---
 src/lib/lex.yy.c | 4 ++++
 src/lib/star.l   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/lex.yy.c b/src/lib/lex.yy.c
index e97b1e9..3376b74 100644
--- a/src/lib/lex.yy.c
+++ b/src/lib/lex.yy.c
@@ -568,6 +568,10 @@ Match for EOL at EOF contributed by Boris Dusek
 
 #define YY_DECL int star_scanner() 
 
+/* A character that no rule accepts is an error, never to be dropped from the
+   value and printed instead */
+#define ECHO { YY_FLUSH_BUFFER; return(DERROR); }
+
 /* redefine YY_INPUT to come from our global string */
 #define YY_INPUT(buf,result,max_size)\
 {\
diff --git a/src/lib/star.l b/src/lib/star.l
index adf7ded..e63eccd 100644
--- a/src/lib/star.l
+++ b/src/lib/star.l
@@ -19,6 +19,10 @@ Match for EOL at EOF contributed by Boris Dusek
 
 #define YY_DECL int star_scanner() 
 
+/* A character that no rule accepts is an error, never to be dropped from the
+   value and printed instead */
+#define ECHO { YY_FLUSH_BUFFER; return(DERROR); }
+
 /* redefine YY_INPUT to come from our global string */
 #define YY_INPUT(buf,result,max_size)\
 {\
-- 
2.43.0


From bec8e5440446d8729592d0b34b47b1a54a2f35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 041/104] fix: yapps: 'Could not match' errors carry the
 position in the text, not a letter of the token name

---
 src/yapps3/grammar.py       | 8 ++++----
 src/yapps3/parsetree.py     | 4 ++--
 src/yapps3/yapps_grammar.py | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/yapps3/grammar.py b/src/yapps3/grammar.py
index f291072..84d523f 100644
--- a/src/yapps3/grammar.py
+++ b/src/yapps3/grammar.py
@@ -120,7 +120,7 @@ class ParserDescription(yappsrt.Parser):
                 Str = self.Str(_context)
                 tok.append( ('#ignore',Str) )
             else:
-                raise yappsrt.YappsSyntaxError(_token[0], 'Could not match Tokens')
+                raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match Tokens')
         if self._peek() not in ['"token"', '"ignore"', 'EOF', '"rule"']:
             raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Need one of ' + ', '.join(['"token"', '"ignore"', 'EOF', '"rule"']))
         return tok
@@ -178,7 +178,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '":"', '"parser"', 'ATTR', 'COLON']:
             return ClauseD
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseC')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseC')
 
     def ClauseD(self, rule, tokens, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'ClauseD', [rule, tokens])
@@ -206,7 +206,7 @@ class ParserDescription(yappsrt.Parser):
             STMT = self._scan('STMT')
             return parsetree.Eval(rule, STMT[2:-2])
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseD')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseD')
 
     def OptParam(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'OptParam', [])
@@ -217,7 +217,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '"parser"', 'COLON']:
             return ''
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match OptParam')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match OptParam')
 
     def Str(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'Str', [])
diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index c8c1af5..e06996f 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -548,8 +548,8 @@ class Choice(Node):
 
         if tokens_unseen:
             gen.write(indent, "else:\n")
-            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(_token[0], ")
-            gen.write("'Could not match ", self.rule, "')\n")
+            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, ")
+            gen.write("msg='Could not match ", self.rule, "')\n")
 
 class Wrapper(Node):
     """This is a base class for nodes that modify a single child."""
diff --git a/src/yapps3/yapps_grammar.py b/src/yapps3/yapps_grammar.py
index f291072..84d523f 100644
--- a/src/yapps3/yapps_grammar.py
+++ b/src/yapps3/yapps_grammar.py
@@ -120,7 +120,7 @@ class ParserDescription(yappsrt.Parser):
                 Str = self.Str(_context)
                 tok.append( ('#ignore',Str) )
             else:
-                raise yappsrt.YappsSyntaxError(_token[0], 'Could not match Tokens')
+                raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match Tokens')
         if self._peek() not in ['"token"', '"ignore"', 'EOF', '"rule"']:
             raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Need one of ' + ', '.join(['"token"', '"ignore"', 'EOF', '"rule"']))
         return tok
@@ -178,7 +178,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '":"', '"parser"', 'ATTR', 'COLON']:
             return ClauseD
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseC')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseC')
 
     def ClauseD(self, rule, tokens, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'ClauseD', [rule, tokens])
@@ -206,7 +206,7 @@ class ParserDescription(yappsrt.Parser):
             STMT = self._scan('STMT')
             return parsetree.Eval(rule, STMT[2:-2])
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match ClauseD')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match ClauseD')
 
     def OptParam(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'OptParam', [])
@@ -217,7 +217,7 @@ class ParserDescription(yappsrt.Parser):
         elif _token not in ['"ignore"', '"token"', '"option"', '"parser"', 'COLON']:
             return ''
         else:
-            raise yappsrt.YappsSyntaxError(_token[0], 'Could not match OptParam')
+            raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, msg='Could not match OptParam')
 
     def Str(self, _parent=None):
         _context = self.Context(_parent, self._scanner, self._pos, 'Str', [])
-- 
2.43.0


From 6b0ef43c82ec4a1fcc495f2d759f3737321408fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 042/104] fix: yapps: cleanup_choice of nothing names
 parsetree.Sequence

---
 src/yapps3/grammar.py       | 2 +-
 src/yapps3/yapps_grammar.g  | 2 +-
 src/yapps3/yapps_grammar.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapps3/grammar.py b/src/yapps3/grammar.py
index 84d523f..ee7e138 100644
--- a/src/yapps3/grammar.py
+++ b/src/yapps3/grammar.py
@@ -23,7 +23,7 @@ import parsetree
 
 ######################################################################
 def cleanup_choice(rule, lst):
-    if len(lst) == 0: return Sequence(rule, [])
+    if len(lst) == 0: return parsetree.Sequence(rule)
     if len(lst) == 1: return lst[0]
     return parsetree.Choice(rule, *tuple(lst))
 
diff --git a/src/yapps3/yapps_grammar.g b/src/yapps3/yapps_grammar.g
index 9c10d8b..d2fb672 100755
--- a/src/yapps3/yapps_grammar.g
+++ b/src/yapps3/yapps_grammar.g
@@ -23,7 +23,7 @@ import parsetree
 
 ######################################################################
 def cleanup_choice(rule, lst):
-    if len(lst) == 0: return Sequence(rule, [])
+    if len(lst) == 0: return parsetree.Sequence(rule)
     if len(lst) == 1: return lst[0]
     return parsetree.Choice(rule, *tuple(lst))
 
diff --git a/src/yapps3/yapps_grammar.py b/src/yapps3/yapps_grammar.py
index 84d523f..ee7e138 100644
--- a/src/yapps3/yapps_grammar.py
+++ b/src/yapps3/yapps_grammar.py
@@ -23,7 +23,7 @@ import parsetree
 
 ######################################################################
 def cleanup_choice(rule, lst):
-    if len(lst) == 0: return Sequence(rule, [])
+    if len(lst) == 0: return parsetree.Sequence(rule)
     if len(lst) == 1: return lst[0]
     return parsetree.Choice(rule, *tuple(lst))
 
-- 
2.43.0


From 530d942ed47ae93e1746dccba185c2269b3c34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 043/104] fix: GetKeyedSemanticPacket skips a loop whose key
 has no value

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index c5234a7..57e86fd 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2365,6 +2365,8 @@ def GetKeyedSemanticPacket(self,keyvalue,cat_id):
                 not (isinstance(test_key,list) and (None in test_key or len(test_key)==0)):
                     print('Getting packet for key %s' % repr( keyvalue ))
                     extra_packet = self.GetKeyedPacket(cat_key,keyvalue,no_case=lcase)
+                else:           #nothing to look the value up in
+                    continue
             except:             #cannot be generated
                 continue
         except ValueError:      #none/more than one, assume none
-- 
2.43.0


From d7b506f0a8682b8f3363589929400730c6628c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 044/104] fix: light import of a dictionary is refused with
 ValueError, not TypeError

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 5cd619b..45bd094 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -536,7 +536,7 @@ def __init__(self,dic,do_minimum=False,do_imports='All', do_dREL=True,
         do_dREL = False
     if do_dREL: do_imports = 'All'
     if heavy == 'Light' and do_imports not in ('contents','No'):
-        raise(ValueError,"Light imports only available for mode 'contents'")
+        raise ValueError("Light imports only available for mode 'contents'")
     self.template_cache = {}    #for DDLm imports
     self.ddlm_functions = {}    #for DDLm functions
     self.switch_numpy(False)    #no Numpy arrays returned
-- 
2.43.0


From 7b2a2e5aea86c17154a4051e026cfad8b3477dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 045/104] fix: import mode is compared by value

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 45bd094..cb047c7 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -558,7 +558,7 @@ def __init__(self,dic,do_minimum=False,do_imports='All', do_dREL=True,
         self.DDL2_normalise()   #iron out some DDL2 tricky bits
     elif self.diclang == "DDLm":
         self.scoping = 'dictionary'   #expose all save frames
-        if do_imports is not 'No':
+        if do_imports != 'No':
             self.obtain_imports(import_mode=do_imports,heavy=heavy)#recursively calls this routine
         self.create_alias_table()
         self.create_cat_obj_table()
-- 
2.43.0


From 35ec9d91eb671f48bb5d0c36774637406341802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 046/104] fix: validate_item_container calls its own decide
 method

---
 src/CifFile_module.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index cb047c7..7e11e7b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2013,13 +2013,13 @@ def validate_item_container(self, item_name,item_value):
     item_values = listify(item_value)
     if container_type == 'Single':
        okcheck = [a for a in item_values if not isinstance(a,(int,float,long,unicode))]
-       return decide(okcheck)
+       return self.decide(okcheck)
     if container_type in ('Multiple','List'):
        okcheck = [a for a in item_values if not isinstance(a,StarList)]
-       return decide(okcheck)
+       return self.decide(okcheck)
     if container_type == 'Array':    #A list with numerical values
        okcheck = [a for a in item_values if not isinstance(a,StarList)]
-       first_check = decide(okcheck)
+       first_check = self.decide(okcheck)
        if not first_check['result']: return first_check
        #num_check = [a for a in item_values if len([b for b in a if not isinstance
 
-- 
2.43.0


From 05ada6621fc8624728e4191d583780d172348c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 047/104] fix: generate_default_packet names
 StarFile.StarPacket

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 7e11e7b..c5d608d 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3357,7 +3357,7 @@ a missing atom type may be assumed to have a number in cell of 0.
 def generate_default_packet(self,catname,catkey,keyvalue):
     """Return a StarPacket with items from ``catname`` and a key value
     of ``keyvalue``"""
-    newpack = StarPacket()
+    newpack = StarFile.StarPacket()
     for na in self.names_in_cat(catname):
         def_val = self[na].get("_enumeration.default","")
         if def_val:
-- 
2.43.0


From bc95e9c77da52e2e14ddddad415a0b0946c3bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 048/104] fix: defaults looked up by a case-sensitive index can
 be found

---
 src/CifFile_module.nw | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index c5d608d..087084c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3332,6 +3332,7 @@ if def_val:
 elif def_index_val:            #derive a default value
     index_vals = self[key]["_enumeration_default.index"]
     val_to_index = cifdata[def_index_val]     #what we are keying on
+    lcase_comp = False
     if self[def_index_val]['_type.contents'] in ['Code','Name','Tag']:
         lcase_comp = True
         index_vals = [a.lower() for a in index_vals]
-- 
2.43.0


From 8ff15c316d9d54ad23159d6fb58793c5be6e1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 049/104] fix: a projected data name without a value is left
 out

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 087084c..6d2926e 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3273,7 +3273,7 @@ def duplicate_datanames(self,cifdata,from_category,to_category,key_vals=None,ski
             try:
                 all_data_vals = cifdata[full_from_name]
             except StarFile.StarDerivationError:
-                pass
+                continue
             result[full_to_name] = [all_data_vals[i] for i in filter_pos]
     return result
 
-- 
2.43.0


From 56aa27b7a146b6df63566b20072d8cd861e301b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 050/104] fix: a range that cannot be read leaves the value
 unrestricted

---
 src/CifFile_module.nw | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 6d2926e..633ef59 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3430,6 +3430,7 @@ def getmaxmin(self,rangeexp):
         maximum = regexp.group(7)
     except AttributeError:
         print("Can't match %s" % rangeexp)
+        minimum = maximum = None
     if minimum == None: minimum = "."
     else: minimum = float(minimum)
     if maximum == None: maximum = "."
-- 
2.43.0


From b6cd4b25ff64723e68d3b83b6fd32805f6321e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 051/104] fix: getcatname of a name without a period returns
 the name

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 8aa3974..beea0c5 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -891,5 +891,5 @@ def getcatname(dataname):
     try:
         cat,name = dataname.split(".")
     except ValueError:        #no period in name
-        return cat,None
+        return dataname,None
     return cat[1:],name
-- 
2.43.0


From 984d4e3caefd955c24b4d990114a128d6de7c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 052/104] fix: cif_update raises StarError for duplicate names

---
 src/YappsStarParser.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 7e8f73f..f5bd55d 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -165,12 +165,12 @@ def make_empty(nestlevel):
 # (2) new_dict is not empty -> we have some new key-value pairs
 #
 def cif_update(old_dict,new_dict,loops):
-    old_keys = map(lambda a:a.lower(),old_dict.keys())
+    old_keys = [a.lower() for a in old_dict.keys()]
     if new_dict != {}:    # otherwise we have a new loop
         #print 'Comparing %s to %s' % (repr(old_keys),repr(new_dict.keys()))
         for new_key in new_dict.keys():
             if new_key.lower() in old_keys:
-                raise CifError("Duplicate dataname or blockname %s in input file" % new_key)
+                raise StarError("Duplicate dataname or blockname %s in input file" % new_key)
             old_dict[new_key] = new_dict[new_key]
 #
 # this takes two lines, so we couldn't fit it into a one line execution statement...
@@ -577,5 +577,5 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import absolute_import
 
-from .StarFile import StarBlock,StarFile,StarList,StarDict
+from .StarFile import StarBlock,StarFile,StarList,StarDict,StarError
 from io import StringIO
-- 
2.43.0


From 23381485b8f439d9b7e4272be40c767e392b150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 053/104] fix: items can be deleted from a checked block, and
 the checks name the item

---
 src/CifFile_module.nw | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 633ef59..b7267fc 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2661,6 +2661,9 @@ def run_global_validation(self,item_name,item_value,data_block,provisional_items
     results = list([(f.__name__,f(item_name,item_value,data_block,provisional_items,globals)) for f in self.global_validation_funs])
     return {item_name:results}
 
+def run_remove_global_validation(self,item_name,whole_block):
+    return {item_name:list([(f.__name__,f(item_name,whole_block)) for f in self.global_remove_validation_funs])}
+
 def run_block_validation(self,whole_block,block_scope='Item'):
     results = list([(f.__name__,f(whole_block)) for f in self.block_validation_funs])
     # fix up the return values
@@ -3641,7 +3644,7 @@ def remove_global_item_check(self,item_name):
     if item_name not in self.fulldic:
         result = {item_name:[]}
     else:
-        result = self.fulldic.run_remove_global_validation(item_name,self,False)
+        result = self.fulldic.run_remove_global_validation(item_name,self)
     baddies = list([a for a in result[item_name] if a[1]["result"]==False])
     # if even one false one is found, this should trigger
     isvalid = (len(baddies) == 0)
@@ -3701,16 +3704,15 @@ def __delitem__(self,key):
     # global checks.
     if key in self:
         try:
-            loop_items = self.GetLoop(key)
-        except TypeError:
-            loop_items = []
-        if loop_items:             #need to check loop conformance
-            loop_names = [a[0] for a in loop_items if a[0] != key]
+            loop_names = [a for a in self.GetLoopNames(key) if a != key.lower()]
+        except KeyError:
+            loop_names = []
+        if loop_names:             #need to check loop conformance
             valid,problems = self.loop_item_check(loop_names)
-            self.report_if_invalid(valid,problems)
+            self.report_if_invalid(valid,problems,key)
         valid,problems = self.remove_global_item_check(key)
-        self.report_if_invalid(valid,problems)
-    self.RemoveCifItem(key)
+        self.report_if_invalid(valid,problems,key)
+    super(ValidCifBlock,self).__delitem__(key)
 
 @ Adding to a loop.  We find the loop containing the dataname that
 we have been passed, and then append all of the (key,values) pairs that we
-- 
2.43.0


From 36a91a3a6317bfe2e724d2beb70b5a0e2f4bc5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 054/104] fix: columns can be added to a loop of a checked
 block

---
 src/CifFile_module.nw | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index b7267fc..3ef6626 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3728,22 +3728,21 @@ def AddToLoop(self,dataname,loopdata):
     paired_data = loopdata.items()
     for name,value in paired_data:
         valid,problems = self.single_item_check(name,value)
-        self.report_if_invalid(valid,problems)
+        self.report_if_invalid(valid,problems,name)
     # loop item checks; merge with current loop
-    found = 0
-    for aloop in self.block["loops"]:
-        if dataname in aloop:
-            loopnames = aloop.keys()
+    for aloop in self.loops.values():
+        if dataname.lower() in aloop:
+            loopnames = list(aloop)
             for new_name in loopdata.keys():
-                if new_name not in loopnames: loopnames.append(new_name)
-            valid,problems = self.looped_item_check(loopnames)
-            self.report_if_invalid(valid,problems)
+                if new_name.lower() not in loopnames: loopnames.append(new_name)
+            valid,problems = self.loop_item_check(loopnames)
+            self.report_if_invalid(valid,problems,dataname)
     prov_dict = loopdata.copy()
     for name,value in paired_data:
         del prov_dict[name]   # remove temporarily
         valid,problems = self.global_item_check(name,value,prov_dict)
         prov_dict[name] = value  # add back in
-        self.report_if_invalid(valid,problems)
+        self.report_if_invalid(valid,problems,name)
     CifBlock.AddToLoop(self,dataname,loopdata)
 
 @  Note that a dictionary must be specified in order to create a valid
-- 
2.43.0


From ae991fa78d1f94b87e91d64ee8e7c4ad1763234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 055/104] fix: a loop without a name of the dictionary can be
 checked

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 3ef6626..cbf28e7 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3619,10 +3619,10 @@ def single_item_check(self,item_name,item_value):
 def loop_item_check(self,loop_names):
     in_dic_names = list([a for a in loop_names if a in self.fulldic])
     if len(in_dic_names)==0:
-        result = {loop_names[0]:[]}
+        baddies = []
     else:
         result = self.fulldic.run_loop_validation(in_dic_names)
-    baddies = list([a for a in result[in_dic_names[0]] if a[1]["result"]==False])
+        baddies = list([a for a in result[in_dic_names[0]] if a[1]["result"]==False])
     # if even one false one is found, this should trigger
     isvalid = (len(baddies) == 0)
     # if not isvalid: print("Failures for {}: {!r}".format(loop_names, baddies))
-- 
2.43.0


From 613c5445fc9d4bfc40b4f8a644524a77266a0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 056/104] fix: ValidationResult answers for a whole file

---
 src/CifFile_module.nw | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index cbf28e7..860d71b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3822,13 +3822,12 @@ class ValidationResult:
         if block_name is not None:
             block_names = [block_name]
         else:
-            block_names = self.valid_result.iterkeys()
+            block_names = self.valid_result.keys()
+        valid = True
         for block_name in block_names:
             if not self.valid_result[block_name] == (True,{}):
                 valid = False
                 break
-            else:
-                valid = True
         return valid
 
     def has_no_match_items(self,block_name=None):
@@ -3836,13 +3835,12 @@ class ValidationResult:
         if block_name is not None:
             block_names = [block_name]
         else:
-            block_names = self.no_matches.iter_keys()
+            block_names = self.no_matches.keys()
+        has_no_match_items = False
         for block_name in block_names:
             if self.no_matches[block_name]:
                 has_no_match_items = True
                 break
-            else:
-                has_no_match_items = False
         return has_no_match_items
 
 
-- 
2.43.0


From d798e9b04f4b330e99885308dada1ff8ebbaa797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 057/104] fix: loop_example adds the items it announces

---
 src/Programs/loop_example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Programs/loop_example.py b/src/Programs/loop_example.py
index 9c1780a..c8493dd 100644
--- a/src/Programs/loop_example.py
+++ b/src/Programs/loop_example.py
@@ -17,14 +17,14 @@ needed_items = [
           "_atom_site_fract_z"]
 
 loopkeys = cf.GetLoopNames("_atom_site_label")  #get co-looped names
-if len(filter(lambda a,b=loopkeys:a not in b, needed_items)) != 0:
+if len([a for a in needed_items if a not in loopkeys]) != 0:
     print("Error: one or more items missing from atom_site_label loop")
     sys.exit()
 #
 # ----- End of optional section
 
 nb = CifBlock()                   # create a new block
-map(lambda a:nb.AddItem(a,cf[a]),needed_items)  #set new values
+for a in needed_items: nb.AddItem(a,cf[a])  #set new values
 nb.CreateLoop(needed_items)               # create the loop
 df = CifFile()                    # create a new cif object
 df.NewBlock("changed",nb)             # and add our new block
-- 
2.43.0


From adbf7ff8a46899994bace8e5cf7fe405c2239489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 058/104] fix: process-validate finds merge_dic and the is_dic
 field

---
 src/Programs/process-validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Programs/process-validate.py b/src/Programs/process-validate.py
index 6b2f32f..d00aabb 100755
--- a/src/Programs/process-validate.py
+++ b/src/Programs/process-validate.py
@@ -23,7 +23,7 @@ input_cif = formdata["cif_file"]
 if input_cif.file:
     filename = input_cif.filename
 else: filename = ""
-is_dic = formdata.has_key("is_dic")
+is_dic = "is_dic" in formdata
 input_dics = formdata.getlist("dic_list")
 
 # Save file data to temporary file
@@ -52,8 +52,8 @@ except:
     print("Unspecified error reading file %s.  This is most likely a CIF syntax error.")
 # Now do the validation...
 else:
-    diclist = map(lambda a:os.path.join(dic_directory,a),input_dics)
-    merged_dics = CifFile.merge_dic(diclist)
+    diclist = [os.path.join(dic_directory,a) for a in input_dics]
+    merged_dics = CifFile.CifFile_module.merge_dic(diclist)
     validate_cif.output_header(True,filename,input_dics)
     print(CifFile.validate_report(CifFile.Validate(cf,dic= merged_dics,isdic=is_dic),use_html=True))
     validate_cif.output_footer(True)
-- 
2.43.0


From c0174dd375039005a6dde5baa40816ed946d4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 059/104] fix: star2_to_cif2 measures time with a clock that
 exists

---
 src/Programs/star2_to_cif2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Programs/star2_to_cif2.py b/src/Programs/star2_to_cif2.py
index 15848c0..ebb64d4 100644
--- a/src/Programs/star2_to_cif2.py
+++ b/src/Programs/star2_to_cif2.py
@@ -14,9 +14,9 @@ from CifFile import ReadCif,CifDic
 import time
 
 def do_conversion(infile,outfile,desc=None,comment=None):
-    startread = time.clock()
+    startread = time.time()
     incif = ReadCif(infile,grammar="STAR2")
-    print('Finished reading %s in %f seconds' % (infile,time.clock() - startread))
+    print('Finished reading %s in %f seconds' % (infile,time.time() - startread))
     try:
         incif = CifDic(incif,do_minimum=True)
     except:
@@ -46,7 +46,7 @@ def do_conversion(infile,outfile,desc=None,comment=None):
     of = open(outfile,"w")
     of.write(incif.WriteOut(comment=comment_header,saves_after='_description.text'))
     of.close()
-    print('Finished writing %s in %f seconds' % (outfile,time.clock() - startread))
+    print('Finished writing %s in %f seconds' % (outfile,time.time() - startread))
 
 if __name__ == "__main__":
     import sys
-- 
2.43.0


From 216e8e1493aa67dfb71e8f38f685911fd6fe0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 060/104] fix: validate_cif stops when it is given no arguments

---
 src/Programs/validate_cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Programs/validate_cif.py b/src/Programs/validate_cif.py
index 1fc6768..84abf48 100644
--- a/src/Programs/validate_cif.py
+++ b/src/Programs/validate_cif.py
@@ -90,7 +90,7 @@ def parse_options():
     import sys
     if len(sys.argv) <= 1:
         print( "No arguments given: use option --help to get a help message\n")
-        exit
+        sys.exit(1)
     return options,args
 
 def execute_with_options(options,args):
-- 
2.43.0


From e212c54b43aaaa5a67650aa3666ae6147af7fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 061/104] fix: validate_cif uses and reports every registered
 dictionary

---
 src/Programs/validate_cif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Programs/validate_cif.py b/src/Programs/validate_cif.py
index 84abf48..4910924 100644
--- a/src/Programs/validate_cif.py
+++ b/src/Programs/validate_cif.py
@@ -101,9 +101,9 @@ def execute_with_options(options,args):
         fulldic = CifFile.CifFile_module.merge_dic(diclist,mergemode='overlay')
     else:
         # print( "Locating dictionaries using registry at %s" % options.registry)
-        dics = zip(options.iucr_names,options.versions)
-        dicurls = map(lambda a:locate_dic(a[0],a[1],regloc=options.registry,store_dir=options.dirname),dics)
-        diccifs = map(lambda a:cif_by_ftp(a,options.store_flag,options.dirname),dicurls)
+        dics = list(zip(options.iucr_names,options.versions))
+        dicurls = [locate_dic(a[0],a[1],regloc=options.registry,store_dir=options.dirname) for a in dics]
+        diccifs = [cif_by_ftp(a,options.store_flag,options.dirname) for a in dicurls]
         fulldic = CifFile.CifFile_module.merge_dic(diccifs)
         diclist = dicurls  # for use in reporting later
     # open the cif file
-- 
2.43.0


From 8a97d05a4a989b57276c8f8d388bda12c9873ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 062/104] fix: output_asciidoc runs under Python 3

---
 src/Programs/output_asciidoc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Programs/output_asciidoc.py b/src/Programs/output_asciidoc.py
index 2ed98e2..135949d 100644
--- a/src/Programs/output_asciidoc.py
+++ b/src/Programs/output_asciidoc.py
@@ -2,7 +2,7 @@
 #
 from CifFile import CifDic,CifFile
 from CifFile.StarFile import CIFStringIO
-import cStringIO,os,re
+import os,re
 
 def make_asciidoc(indic):
     """Make a nice asciidoc document from a CIF dictionary"""
@@ -43,7 +43,7 @@ Datanames making up the keys for these categories have a dot suffix.""")
     outstring.write("\n\n");
     outstring.write("toc::[]\n")  #only works if toc2 removed
     # store a list of ids for us to reference later
-    section_ids = map(make_id,blockorder[1:])
+    section_ids = [make_id(a) for a in blockorder[1:]]
     for adef in blockorder[1:]:
         onedef = sem_dic[adef]
         def_type = onedef.get('_definition.scope','Item')
@@ -64,7 +64,7 @@ Datanames making up the keys for these categories have a dot suffix.""")
         example_explanation = onedef.get('_description_example.detail',[])
         if len(example_explanation) != len(examples):   # no explanations
             example_explanation = ['']*len(examples)
-        all_examples = zip(examples,example_explanation)
+        all_examples = list(zip(examples,example_explanation))
         if def_type == 'Category':
             outstring.write("[[%s]]\n== " % def_id)
             current_cat = def_header
@@ -175,14 +175,14 @@ def is_key(dic,name):
         cat_keys = cat_block.get('_category_key.name',[])
         single_key = cat_block.get('_category.key_id','')
         return name in cat_keys or name == single_key
-    print 'Warning: no block found for %s' % cat_name
+    print('Warning: no block found for %s' % cat_name)
     return False
 
 def get_template_text(onedef,mainfilename,template_cache={}):
     """Return some text stating that the definition comes from a template"""
     import os.path
     def_text = 'Empty'
-    if onedef.has_key('_import.get'):
+    if '_import.get' in onedef:
         filename = onedef['_import.get'][0]['file']
         blockname = onedef['_import.get'][0]['save']
         if filename not in template_cache:
@@ -190,7 +190,7 @@ def get_template_text(onedef,mainfilename,template_cache={}):
             template_cache[filename] = CifFile(basename,grammar="2.0")
         def_text = '(Generic definition) '+ prepare_text(template_cache[filename][blockname]['_description.text'])
     else:
-        print 'No import found'
+        print('No import found')
     return def_text
 
 def analyse_deps(indic,in_directory="."):
@@ -222,4 +222,4 @@ if __name__ == "__main__":
         indic = sys.argv[1]
         final_doc = make_asciidoc(indic)
     else:
-        print 'Usage: output_asciidoc <dictionary_name>. Output file will be <dictionary_name>.adoc'
+        print('Usage: output_asciidoc <dictionary_name>. Output file will be <dictionary_name>.adoc')
-- 
2.43.0


From c27bac418438b467171854532c96ed292ec5e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 063/104] fix: output_asciidoc handles an item before the first
 category

---
 src/Programs/output_asciidoc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Programs/output_asciidoc.py b/src/Programs/output_asciidoc.py
index 135949d..285f6e4 100644
--- a/src/Programs/output_asciidoc.py
+++ b/src/Programs/output_asciidoc.py
@@ -44,6 +44,7 @@ Datanames making up the keys for these categories have a dot suffix.""")
     outstring.write("toc::[]\n")  #only works if toc2 removed
     # store a list of ids for us to reference later
     section_ids = [make_id(a) for a in blockorder[1:]]
+    current_cat = ''
     for adef in blockorder[1:]:
         onedef = sem_dic[adef]
         def_type = onedef.get('_definition.scope','Item')
-- 
2.43.0


From 648f960c1a1c4d0966ec7a22126976da97d6e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 064/104] fix: add_spoke finds categories in the dictionary
 itself

---
 src/Programs/add_spoke.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Programs/add_spoke.py b/src/Programs/add_spoke.py
index 2eccc22..bb7671c 100644
--- a/src/Programs/add_spoke.py
+++ b/src/Programs/add_spoke.py
@@ -8,21 +8,20 @@ from CifFile import CifDic
 def update_one_category(dic,cat_name,hub_id,obj_id,extra_text=""):
     """Add a dataname <cat_name.obj_id> to category cat_name which is
     a child_item of category hub_id and an additional key for cat_name"""
-    blockname = dic.block_from_catname(cat_name)
-    hub_blockname = dic.block_from_catname(hub_id)
-    hub_keyname = dic[hub_blockname]['_category_key.name'][0]
+    hub_keyname = dic[hub_id]['_category_key.name'][0]
     def_text = "This dataname indicates which member of the " + hub_id.upper()
     def_text += \
 """ category a member of this category belongs to. It does not need to be
 explicitly included in datafiles if the key for the """ + hub_id + \
 """ category takes a single (or default) value. """ + extra_text
-    new_bname = dic.add_definition(obj_id,blockname,def_text)
+    new_bname = dic.add_definition(obj_id,cat_name,def_text)
     dic[new_bname]['_name.linked_item_id'] = hub_keyname
     dic[new_bname]['_type.purpose'] = 'Link'
     # now update the category information as well
-    current_keys = dic[blockname].get('_category_key.name',[])
-    dic[blockname]['_category_key.name'] = current_keys + ["_"+new_bname]
-    dic[blockname].CreateLoop(['_category_key.name'])
+    current_keys = dic[cat_name].get('_category_key.name',[])
+    dic[cat_name].overwrite = True
+    dic[cat_name]['_category_key.name'] = current_keys + [dic[new_bname]['_definition.id']]
+    dic[cat_name].CreateLoop(['_category_key.name'])
     return new_bname
 
 def add_spoke(sem_dic,hub_cat,specific_cats = set(),extra_text=''):
@@ -60,7 +59,7 @@ def add_hub_spoke(indic,hub_cat,only_cats=None,force=False):
     """Edit <indic> to add a new hub category, with linked ids in all
     other categories, unless only_cats is specified"""
     sem_dic = CifDic(indic,grammar="2.0",do_minimum=True)
-    if hub_cat.lower() not in sem_dic.cat_map.keys() or force==True:
+    if hub_cat.lower() not in sem_dic or force==True:
         print(hub_cat + ' not found in dictionary, adding')
         add_hub(sem_dic, hub_cat, 'id')
     add_spoke(sem_dic,hub_cat,only_cats)
-- 
2.43.0


From 2d78c1de03cdc28cd721a577b3ffeb9cac6ae90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 065/104] fix: get_key_pack looks the packet up with
 GetKeyedPacket

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 860d71b..9db3873 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1554,7 +1554,7 @@ as a way of finding the loop.
 <<Return a single packet by key>>=
 def get_key_pack(self,category,value,data):
     keyname = self[category][self.unique_spec]
-    onepack = data.GetPackKey(keyname,value)
+    onepack = data.GetKeyedPacket(keyname,value)
     return onepack
 
 @ For help in validation we create a lookup table which matches a category to
-- 
2.43.0


From ce36d2220fc763fa1fcb93358020f6de38eadc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 066/104] fix: fast_load_iter goes round all columns again and
 again

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 57e86fd..0a3ec71 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3380,7 +3380,7 @@ def load_iter(self,coords=[]):
 
 # an experimental fast iterator for level-1 loops (ie CIF)
 def fast_load_iter(self):
-    targets = map(lambda a:self.block[a],self.item_order)
+    targets = [self.block[a] for a in self.item_order]
     while targets:
         for target in targets:
             yield self,target
-- 
2.43.0


From 5b986bcecf1b056a30e56d6346c7be83b53a84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 067/104] fix: the error about Head categories can be raised

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 9db3873..2ef26d2 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1263,7 +1263,7 @@ def get_root_category(self):
     """Get the single 'Head' category of this dictionary"""
     root_cats = [r for r in self.keys() if self[r].get('_definition.class','Datum')=='Head']
     if len(root_cats)>1 or len(root_cats)==0:
-        raise CifError("Cannot determine a unique Head category, got" % repr(root_cats))
+        raise CifError("Cannot determine a unique Head category, got %s" % repr(root_cats))
     return root_cats[0]
 
 def ddlm_immediate_children(self,catname):
-- 
2.43.0


From 3e17fc25788216d78c6c16281045bfc75d6e710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 068/104] fix: yapps: parse() of a generated parser called P

---
 src/yapps3/parsetree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index e06996f..54957fc 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -284,8 +284,7 @@ class Generator:
 
         self.write("\n")
         self.write("def parse(rule, text):\n")
-        self.write("    P = ", self.name, "(", self.name, "Scanner(text))\n")
-        self.write("    return yappsrt.wrap_error_reporter(P, rule)\n")
+        self.write("    return yappsrt.wrap_error_reporter(", self.name, "(", self.name, "Scanner(text)), rule)\n")
         self.write("\n")
         if self.postparser is not None:
             self.write("# End -- grammar generated by Yapps\n")
-- 
2.43.0


From be4c2e85d5dfc9d0699e9f353abeceee69ef80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 069/104] fix: error display: the line starts after the nearest
 line end of either kind

---
 src/yapps3_compiled_rt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapps3_compiled_rt.py b/src/yapps3_compiled_rt.py
index 2ab71f7..c7247da 100644
--- a/src/yapps3_compiled_rt.py
+++ b/src/yapps3_compiled_rt.py
@@ -339,7 +339,7 @@ def print_line_with_pointer(text, p):
     # Strip to the left
     i = text[:p].rfind('\n')
     j = text[:p].rfind('\r')
-    if i < 0 or (0 <= j < i): i = j
+    i = max(i, j)
     if 0 <= i < p:
         p = p - i - 1
         text = text[i+1:]
-- 
2.43.0


From 3c916127d8ac0e13494c3e07c69ddb086d2bef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 070/104] fix: a line of a text field that starts with # is not
 a comment

---
 src/YappsStarParser.nw | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index f5bd55d..4c18116 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -218,6 +218,8 @@ removed when PyCIFRW is ported to Python 3.
 token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
 
 <<STAR2-CIF2 common regular expressions block 1>>=
+# text lines come before the comments, as the first of two equally long matches is taken
+token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 # first handle whitespace and comments, keeping whitespace
 # before a semicolon
 ignore: "([ \t\n\r](?!;))|[ \t]"
@@ -231,7 +233,6 @@ token save_end: "(S|s)(A|a)(V|v)(E|e)_"
 token data_name: u"_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_\u00A0-\uD7FF\uE000-\uFDCF\uFDF0-\uFFFD\U00010000-\U0001FFFD\U00020000-\U0002FFFD\U00030000-\U0003FFFD\U00040000-\U0004FFFD\U00050000-\U0005FFFD\U00060000-\U0006FFFD\U00070000-\U0007FFFD\U00080000-\U0008FFFD\U00090000-\U0009FFFD\U000A0000-\U000AFFFD\U000B0000-\U000BFFFD\U000C0000-\U000CFFFD\U000D0000-\U000DFFFD\U000E0000-\U000EFFFD\U000F0000-\U000FFFFD\U00100000-\U0010FFFD-]+" #_followed by stuff
 token data_heading: u"(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_\u00A0-\uD7FF\uE000-\uFDCF\uFDF0-\uFFFD\U00010000-\U0001FFFD\U00020000-\U0002FFFD\U00030000-\U0003FFFD\U00040000-\U0004FFFD\U00050000-\U0005FFFD\U00060000-\U0006FFFD\U00070000-\U0007FFFD\U00080000-\U0008FFFD\U00090000-\U0009FFFD\U000A0000-\U000AFFFD\U000B0000-\U000BFFFD\U000C0000-\U000CFFFD\U000D0000-\U000DFFFD\U000E0000-\U000EFFFD\U000F0000-\U000FFFFD\U00100000-\U0010FFFD-]+"
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
-token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
 token c_c_b: "\}"
 token o_c_b: "\{"
@@ -262,6 +263,8 @@ token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|
 as such.
 
 <<Regular expressions 1.1>>=
+# text lines come before the comments, as the first of two equally long matches is taken
+token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 # first handle whitespace and comments, keeping whitespace
 # before a semicolon
 ignore: "([ \t\n\r](?!;))|[ \t]"
@@ -275,7 +278,6 @@ token save_end: "(S|s)(A|a)(V|v)(E|e)_"
 token data_name: "_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+" #_followed by stuff
 token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+"
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
-token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
 token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
@@ -283,6 +285,8 @@ token END: '$'
 @ The original CIF specification allowed brackets to begin data values, even if not quoted.  That is the only difference.
 
 <<Regular expressions 1.0>>=
+# text lines come before the comments, as the first of two equally long matches is taken
+token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 # first handle whitespace and comments, keeping whitespace
 # before a semicolon
 ignore: "([ \t\n\r](?!;))|[ \t]"
@@ -296,7 +300,6 @@ token save_end: "(S|s)(A|a)(V|v)(E|e)_"
 token data_name: "_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+" #_followed by stuff
 token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+"
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
-token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
 token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
-- 
2.43.0


From 9c02772ee15e4023ec642c8672bca1e372540069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 071/104] fix: check_data_name refused characters outside the
 basic plane other than U+xFFFE and U+xFFFF

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 0a3ec71..65d6f2c 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1821,7 +1821,7 @@ def check_data_name(self,dataname,maxlength=-1):
             raise StarError( 'Dataname ' + dataname + ' contains unsupported characters (between U+FDD0 and U+FDEF)')
         if len ([a for a in dataname if ord(a) == 0xFFFE or ord(a) == 0xFFFF]) > 0:
             raise StarError( 'Dataname ' + dataname + ' contains unsupported characters (U+FFFE and/or U+FFFF)')
-        if len ([a for a in dataname if ord(a) > 0x10000 and (ord(a) & 0xE == 0xE)]) > 0:
+        if len ([a for a in dataname if ord(a) > 0x10000 and (ord(a) & 0xFFFE == 0xFFFE)]) > 0:
             print('%s fails' % dataname)
             for a in dataname: print('%x' % ord(a),end="")
             print()
-- 
2.43.0


From f045b4812d4fe55f26fa6358e7ac5db283092325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 072/104] fix: a loop that ends in an empty list keeps it

---
 src/YappsStarParser.nw | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 4c18116..8c418c0 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -122,13 +122,9 @@ def striptriple(value):
 # helper function to populate a StarBlock given a list of names
 # and values .
 #
-# Note that there may be an empty list at the very end of our itemlists,
-# so we remove that if necessary.
-#
 
 def makeloop(target_block,loopdata):
     loop_seq,itemlists = loopdata
-    if itemlists[-1] == []: itemlists.pop(-1)
     # print('Making loop with %s' % repr(itemlists))
     step_size = len(loop_seq)
     for col_no in range(step_size):
-- 
2.43.0


From 42f965a5d69610b73fa2d24372ff1e18a9122dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 073/104] fix: items behind a save frame called like its data
 block belong to the block

---
 src/YappsStarParser.nw | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 8c418c0..a3f2b9d 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -415,7 +415,7 @@ rule input@<<prepared>>: ( ((
 
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
@@ -427,7 +427,7 @@ whereas CIF2 has space-separated elements.
 <<STAR2-specific grammar>>=
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
@@ -458,7 +458,7 @@ whereas CIF2 has space-separated elements.
 <<CIF2-specific grammar>>=
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       )*
                       save_end           {{return monitor('save_frame',savebc)}}
 
@@ -506,12 +506,12 @@ rule input@<<prepared>>: ( ((
 
     rule dblock@<<prepared>>: ( data_heading {{heading = data_heading[5:];thisbc=StarFile(characterset='unicode',standard=prepared.standard);newname = thisbc.NewBlock(heading,prepared.blocktype(overwrite=False));act_block=thisbc[newname]}}# a data heading
                   (
-                   dataseq@<<thisbc[heading]>>
+                   dataseq@<<act_block>>   #because merging may have changed the heading
                   |
                   save_frame@<<prepared>>     {{thisbc.merge_fast(save_frame,parent=act_block)}}
                   )*
 # A trick to force rechecking of all datanames, which was skipped by the precheck = True option below
-                   )                      {{thisbc[heading].setmaxnamelength(thisbc[heading].maxnamelength);return (monitor('dblock',thisbc))}} # but may be empty
+                   )                      {{act_block.setmaxnamelength(act_block.maxnamelength);return (monitor('dblock',thisbc))}} # but may be empty
 
      rule dataseq@<<starblock>>:  data@<<starblock>>
 		       (
@@ -559,7 +559,7 @@ rule input@<<prepared>>: ( ((
 
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile();newname=savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));act_block=savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<act_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=act_block)}}
                       )*
-- 
2.43.0


From d525457e0b0a820ccb1629fdd16878edeb5fcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 074/104] fix: a save frame may be called like an earlier data
 block

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 65d6f2c..01f02e3 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -713,7 +713,7 @@ def merge_fast(self,new_bc,parent=None):
                 start_key = dup_key
                 while start_key in self.lower_keys: start_key = start_key+'+'
                 self._rekey(dup_key,start_key)
-                if parent_name.lower() == dup_key:  #we just renamed the prospective parent!
+                if parent_name is not None and parent_name.lower() == dup_key:  #we just renamed the prospective parent!
                     parent_name = start_key
               elif our_parent is not None and their_parent is None and parent is None:
                 start_key = dup_key
-- 
2.43.0


From 11f7aeda877dbebe68200ab009fd4095e8f30338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 075/104] fix: a repeated data block was lost when a save frame
 carried its name

---
 src/StarFile.nw | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 01f02e3..27e57ef 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -703,6 +703,11 @@ def merge_fast(self,new_bc,parent=None):
         parent_name = parent_name[0]
     else:
         parent_name = None  #an error will be thrown if we treat as a string
+    if mode != 'replace' and parent is None:  #the same block may be under different keys
+        our_blocks, their_blocks = [set([a.block_id.lower() for a in bc.child_table.values() if a.parent is None])
+                                    for bc in (self,new_bc)]
+        if not our_blocks.isdisjoint(their_blocks):
+            raise StarError("In strict merge mode:duplicate blocks %s" % repr(our_blocks.intersection(their_blocks)))
     if overlap_flag and mode != 'replace':
         double_keys = self.lower_keys.intersection(new_bc.lower_keys)
         for dup_key in double_keys:
@@ -711,13 +716,13 @@ def merge_fast(self,new_bc,parent=None):
               if (our_parent is None and their_parent is not None and parent is None) or\
                   parent is not None:  #rename our block
                 start_key = dup_key
-                while start_key in self.lower_keys: start_key = start_key+'+'
+                while start_key in self.lower_keys or start_key in new_bc.lower_keys: start_key = start_key+'+'
                 self._rekey(dup_key,start_key)
                 if parent_name is not None and parent_name.lower() == dup_key:  #we just renamed the prospective parent!
                     parent_name = start_key
               elif our_parent is not None and their_parent is None and parent is None:
                 start_key = dup_key
-                while start_key in new_bc.lower_keys: start_key = start_key+'+'
+                while start_key in self.lower_keys or start_key in new_bc.lower_keys: start_key = start_key+'+'
                 new_bc._rekey(dup_key,start_key)
               else:
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
-- 
2.43.0


From 0c53f3c3b81c2f13f00cad1fb7dd97c185e7d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 076/104] fix: STAR2 table entries before a missing comma were
 dropped

---
 src/YappsStarParser.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index a3f2b9d..b4c204c 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -442,7 +442,7 @@ whereas CIF2 has space-separated elements.
                                c_s_b                     {{return StarList(this_list)}}
 
      rule curly_bracket_expr: ( o_c_b                     {{table_as_list = []}}
-                             ( delimited_data_value       {{table_as_list = [delimited_data_value]}}
+                             ( delimited_data_value       {{table_as_list.append(delimited_data_value)}}
                               ":"
                               data_value                 {{table_as_list.append(data_value)}}
                             ( ","
-- 
2.43.0


From bc0d3634f4dac21558910f9b36b54867a5a5aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 077/104] fix: the reserved word loop_ was read as a value
 where a value is due

---
 src/YappsStarParser.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index b4c204c..3e9eae8 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -211,7 +211,7 @@ removed when PyCIFRW is ported to Python 3.
 <<Regular expressions STAR2>>=
 <<STAR2-CIF2 common regular expressions block 1>>
 <<STAR2-CIF2 common regular expressions block 2>>
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_([\s,\{\}\[\]]|$))))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
 
 <<STAR2-CIF2 common regular expressions block 1>>=
 # text lines come before the comments, as the first of two equally long matches is taken
@@ -252,7 +252,7 @@ token END: '$'
 
 <<Regular expressions CIF2>>=
 <<STAR2-CIF2 common regular expressions block 1>>
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\}\[\]][^\s\{\}\[\]]*)"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_([\s\{\}\[\]]|$))))[^\s\"#$'_\{\}\[\]][^\s\{\}\[\]]*)"
 <<STAR2-CIF2 common regular expressions block 2>>
 
 @ CIF 1.1 does not allow unquoted data values to begin with a bracket character, but does not have bracket expressions
@@ -275,7 +275,7 @@ token data_name: "_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+" #_follow
 token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+"
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(\s|$))))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @ The original CIF specification allowed brackets to begin data values, even if not quoted.  That is the only difference.
@@ -297,7 +297,7 @@ token data_name: "_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+" #_follow
 token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+"
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(\s|$))))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @
-- 
2.43.0


From 6717acc1d8dbf2e84018e6229f312e145c67820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 078/104] fix: CreateLoop placed the loop too early when its
 names stood before the requested position

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 27e57ef..ec4d5b8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2079,12 +2079,12 @@ def CreateLoop(self,datanames,order=-1,length_check=True):
        else:
            loopno = 1
        self.loops[loopno] = list(lc_datanames)
+       # remove these datanames from item ordering
+       self.item_order = [a for a in self.item_order if a not in lc_datanames]
        if order >= 0:
            self.item_order.insert(order,loopno)
        else:
            self.item_order.append(loopno)
-       # remove these datanames from item ordering
-       self.item_order = [a for a in self.item_order if a not in lc_datanames]
 
 @  Removing a loop. The looped names are not removed, but will cause chaos on output
 unless they are placed into a different loop or deleted.
-- 
2.43.0


From 5fb5e0272c0fbc3dda2ccbd3ff8842fef9b30c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 079/104] fix: ChangeItemOrder of a loop number ended in
 AttributeError

---
 src/StarFile.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ec4d5b8..2180e95 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1703,9 +1703,10 @@ def ChangeItemOrder(self,itemname,newpos):
     in a loop, `newpos` refers to the order within the loop."""
     if isinstance(itemname,(unicode,str)):
         true_name = itemname.lower()
-    else:
+        loopno = self.FindLoop(true_name)
+    else:    #a loop number
         true_name = itemname
-    loopno = self.FindLoop(true_name)
+        loopno = -1
     if loopno < 0:  #top level
         self.item_order.remove(true_name)
         self.item_order.insert(newpos,true_name)
-- 
2.43.0


From 7e264b35daa57c29d43431b1d14faf9ba519f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 080/104] fix: a strict merge of blocks that was refused left
 some of the new items behind

---
 src/StarFile.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 2180e95..098fe0d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3186,7 +3186,8 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
        for key in new_block.keys():
            if key in self and key not in match_att:
               raise StarError( "Identical keys %s in strict merge mode" % key)
-           elif key not in match_att:           #a new dataname
+       for key in new_block.keys():
+           if key not in match_att:           #a new dataname
                self[key] = new_block[key]
        # we get here if there are no keys in common, so we can now copy
        # the loops and not worry about overlaps
-- 
2.43.0


From 3ab0fb1fd6bfd5983d4bdffeb418335abcc85a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 081/104] fix: AddPacket lost the printed spelling of the names
 of the loop

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 098fe0d..ff80a2f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1364,7 +1364,7 @@ def AddPacket(self,packet):
     for myitem in self.parent_block.loops[self.loop_no]:
         new_values.append((myitem,list(self.parent_block[myitem]) + [packet.__getattribute__(myitem)]))
     for myitem,column in new_values:
-        self.parent_block[myitem] = column
+        self.parent_block[self.parent_block.true_case[myitem]] = column
 
 @ Return order of items - this is just a copy of the list of datanames
 making up this loop.
-- 
2.43.0


From 9898fb8ef1930809882da3243277e3040d1f58f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 082/104] fix: merging a block left single values in a loop of
 the block merged into

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ff80a2f..382ae40 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3204,6 +3204,8 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
                pass
        for key in new_block.keys():
               if isinstance(key,unicode):
+                  if self.FindLoop(key)>=0 and new_block.FindLoop(key)<0:
+                      self.RemoveItem(key)    #no longer looped
                   self[key] = new_block[key]
        # creating the loop will remove items from other loops
        for one_loop in new_block.loops.values():
-- 
2.43.0


From da7ff58638e0fd9a36768404bd0a829541fb3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 083/104] fix: AddLoopName took a text with as many letters as
 the loop has rows for a column

---
 src/StarFile.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 382ae40..748eb5c 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2124,7 +2124,8 @@ def AddLoopName(self,oldname, newname):
         loop_len = len(self[oldname])
     finally:
         self.provide_value = old_provides
-    if len(self[newname]) != loop_len:
+    new_value = self[newname]
+    if not isinstance(new_value,list) or isinstance(new_value,StarList) or len(new_value) != loop_len:
         raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (newname,loop_len))
     # remove from any other loops
     [self.loops[a].remove(lower_newname) for a in self.loops if lower_newname in self.loops[a]]
-- 
2.43.0


From 7b7312177b4c209dd47e4f466b1ffc52af22f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 084/104] fix: merging collections made enclosed blocks visible
 with instance scoping

---
 src/StarFile.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 748eb5c..ebbc6d8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -728,7 +728,6 @@ def merge_fast(self,new_bc,parent=None):
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
     self.dictionary.update(new_bc.dictionary)
     self.lower_keys.update(new_bc.lower_keys)
-    self.visible_keys += [a for a in new_bc.lower_keys if a not in self.visible_keys]
     self.block_input_order += [a for a in new_bc.block_input_order if a not in self.block_input_order]
     #print('Block input order now:' + repr(self.block_input_order))
     self.child_table.update(new_bc.child_table)
@@ -736,6 +735,8 @@ def merge_fast(self,new_bc,parent=None):
           reparent_list = [(a[0],a[1].block_id) for a in new_bc.child_table.items() if a[1].parent==None]
           reparent_dict = [(a[0],self.PC(a[1],parent_name.lower())) for a in reparent_list]
           self.child_table.update(dict(reparent_dict))
+    now_visible = [a for a in new_bc.lower_keys if self.scoping != 'instance' or self.child_table[a].parent is None]
+    self.visible_keys = [a for a in self.visible_keys if a not in new_bc.lower_keys] + now_visible
 
 def merge(self,new_bc,mode=None,parent=None,single_block=[],
                idblock="",match_att=[],match_function=None):
-- 
2.43.0


From a43402fc5b57599106a4e872a7686c1b21218e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 085/104] fix: a renamed save frame was written behind its
 neighbours when frames are nested

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ebbc6d8..f21e54f 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -442,7 +442,7 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
 
 def get_immediate_children(self,parentname):
     """Get the next level of children of the given block as a list, without nested levels"""
-    child_handles = [a for a in self.child_table.items() if a[1].parent == parentname.lower()]
+    child_handles = [(a,self.child_table[a]) for a in self.block_input_order if self.child_table[a].parent == parentname.lower()]
     return child_handles
 
 # This takes time
-- 
2.43.0


From 1b24ad8737e794485a00f3516defc21127046674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 086/104] fix: printing with a template changed the order of
 the names in the loops of the block

---
 src/StarFile.nw | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f21e54f..b767fb4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2705,7 +2705,7 @@ the indicated number of spaces.  If we have loops, we add those in too.
 <<Format loop names>>=
 def format_names(self,outstring,indent=0,loop_no=-1):
     """Print datanames from `loop_no` one per line"""
-    temp_order = self.loops[loop_no][:]   #copy
+    temp_order = self.output_loops[loop_no][:]   #copy
     format_hints = dict([(i['dataname'],i) for i in self.formatting_hints if i['dataname'] in temp_order])
     while len(temp_order)>0:
         itemname = temp_order.pop(0)
@@ -2721,8 +2721,8 @@ recognised.
 
 <<Format loop packets>>=
 def format_packets(self,outstring,indent=0,loop_no=-1):
-   alldata = [self[a] for a in self.loops[loop_no]]
-   loopnames = self.loops[loop_no]
+   loopnames = self.output_loops[loop_no]
+   alldata = [self[a] for a in loopnames]
    #print 'Alldata: %s' % `alldata`
    packet_data = list(zip(*alldata))
    #print 'Packet data: %s' % `packet_data`
@@ -3097,6 +3097,7 @@ def create_ordering(self,finish_at,start_from):
     """Create a canonical ordering that includes loops using our formatting hints dictionary"""
     requested_order = list([i['dataname'] for i in self.formatting_hints if i['dataname']!='loop'])
     new_order = []
+    self.output_loops = self.loops.copy()    #the names in each loop as they will be printed
     for item in requested_order:
        if isinstance(item,unicode) and item.lower() in self.item_order:
            new_order.append(item.lower())
@@ -3108,7 +3109,7 @@ def create_ordering(self,finish_at,start_from):
                loopnames = self.loops[target_loop]
                loop_order = [i for i in requested_order if i in loopnames]
                unordered = [i for i in loopnames if i not in loop_order]
-               self.loops[target_loop] = loop_order + unordered
+               self.output_loops[target_loop] = loop_order + unordered
     extras = list([i for i in self.item_order if i not in new_order])
     self.output_order = new_order + extras
     # now handle partial output
-- 
2.43.0


From 037e5d99ca986b62d5e7c386404b0bc01eeb444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 087/104] fix: a copy of a block forgot its character set and
 its limit for names

---
 src/CifFile_module.nw | 7 +++++--
 src/StarFile.nw       | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 2ef26d2..083dbf4 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -255,8 +255,11 @@ def __setitem__(self,key,value):
              self.CreateLoop([key])
 
 def copy(self):
-    newblock = super(CifBlock,self).copy()
-    return self.__class__(newblock)   #catch inheritance
+    newblock = self.__class__(super(CifBlock,self).copy())   #catch inheritance
+    newblock.set_characterset(self.characterset)
+    newblock.maxnamelength = self.maxnamelength
+    newblock.compat_mode = self.compat_mode
+    return newblock
 
 @ This function was added for the dictionary validation routines.  It
 will return a list where each member is itself a list of item names,
diff --git a/src/StarFile.nw b/src/StarFile.nw
index b767fb4..d8875cd 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1666,6 +1666,8 @@ def copy(self):
     newcopy.item_order = self.item_order[:]
     newcopy.true_case = self.true_case.copy()
     newcopy.loops = copy.deepcopy(self.loops)
+    newcopy.set_characterset(self.characterset)
+    newcopy.maxnamelength = self.maxnamelength
 #    return self.copy.im_class(newcopy)   #catch inheritance
     return newcopy
 
-- 
2.43.0


From ed7d3b64202149cb3ba877a2d561d08e1dee8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 088/104] fix: loops with columns of different lengths were cut
 when written, and loops without packets written so that they cannot be read

---
 src/StarFile.nw | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index d8875cd..adb8693 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2633,6 +2633,12 @@ def _printsection(self,instring,blockstart,blockend,indent,finish_at,start_from)
                outstring.write(' ',canbreak=True,do_tab=False,delimiter=True)    #space after itemname
                self.format_value(itemvalue,outstring,hints=item_spec)
        else:# we are asked to print a loop block
+                columns = [self[a] for a in self.output_loops[itemname]]
+                lengths = set([len(a) if isinstance(a,list) else -1 for a in columns])
+                if -1 in lengths or len(lengths) > 1:
+                    raise StarLengthError('Loop columns %s do not have the same length' % repr( self.output_loops[itemname] ))
+                if lengths == set([0]):   #STAR has no loops without packets
+                    continue
                 outstring.set_tab(10)       #guess this is OK?
                 loop_spec = [i['name_pos'] for i in self.formatting_hints if i["dataname"]=='loop']
                 if loop_spec:
-- 
2.43.0


From 7ddf918cd8056a93bd98eef50df183911f8686b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:44 +0000
Subject: [PATCH 089/104] fix: GetLoopNames gave out the list of names the
 block keeps

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index adb8693..5dcf101 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2181,7 +2181,7 @@ def GetLoopNames(self,keyname):
     """Return all datanames appearing together with `keyname`"""
     loop_no = self.FindLoop(keyname)
     if loop_no >= 0:
-        return self.loops[loop_no]
+        return self.loops[loop_no][:]
     else:
         raise KeyError('%s is not in any loop' % keyname)
 
-- 
2.43.0


From 3e88a3d5dd2755c80c1821b40268c022b0810d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 090/104] fix: dREL & and | were grouped as in Python, and with
 the + 1 of a do statement

---
 src/drel/py_from_ast.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index beea0c5..8c1bf15 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -768,7 +768,7 @@ dREL and python, so that the AST contains the textual form of the operator.
         first_arg = traverse_ast(in_node[2])
         second_arg = traverse_ast(in_node[3])
         if op is not None:    #simple operation
-            outstring = first_arg + op + second_arg
+            outstring = "(" + first_arg + op + second_arg + ")"
         else:
             outstring = fix_mathops(in_node[1],first_arg,second_arg)
         return outstring
@@ -776,7 +776,7 @@ dREL and python, so that the AST contains the textual form of the operator.
         outstring = "drel_runtime.drel_dot(" + in_node[1] + "1," + traverse_ast(in_node[2])+")"
         return outstring
     elif node_type == "UNARY":
-        outstring = in_node[1] + " " + traverse_ast(in_node[2])
+        outstring = "(" + in_node[1] + " " + traverse_ast(in_node[2]) + ")"
         return outstring
 
 @  Although in most cases we could simply directly write in the binary maths
-- 
2.43.0


From ebf3d6f1f867e0ad75c00cab2724ee4062231fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 091/104] fix: a dREL list outside an assignment lost its
 brackets

---
 src/drel/py_from_ast.nw | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 8c1bf15..6cf9da2 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -306,16 +306,16 @@ mentioned so that we can create a dependency tree.
     elif node_type == "LIST":
         if len(in_node)==1:  #empty list
            return "StarList([])"
-        if special_info["rhs"] == True:
-            outstring = "StarList(["
-        else:
+        if special_info["rhs"] == False:   #targets
             outstring = ""
+        else:
+            outstring = "StarList(["
         for list_elem in in_node[1:]:
             outstring = outstring + traverse_ast(list_elem) + ","
-        if special_info["rhs"] == True:
-            return outstring[:-1] + "])"
-        else:
+        if special_info["rhs"] == False:
             return outstring[:-1]
+        else:
+            return outstring[:-1] + "])"
     elif node_type == "TABLE":
         if len(in_node)==1:
             return "StarTable({})"
-- 
2.43.0


From 30619884ea4cfe7190578c0835c6b651a805882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 092/104] fix: a dREL do that counts down left out its last
 rounds

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 6cf9da2..863b436 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -536,7 +536,7 @@ are provided as keywords to the
         outstring = "for " + in_node[1] + " in range(" + traverse_ast(in_node[2]) + ","
         finish = traverse_ast(in_node[3])
         increment = traverse_ast(in_node[4])
-        outstring = outstring + finish + "+1" + "," + increment
+        outstring = outstring + finish + "+(1 if " + increment + ">0 else -1)," + increment
         outstring = outstring + "):"
         suite = add_indent("\n"+traverse_ast(in_node[5]))
         return outstring + suite
-- 
2.43.0


From a6580e4d0608f39cb2794a1a602fb84173466f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:49 +0000
Subject: [PATCH 093/104] fix: lines of a dREL string were indented with the
 code around it

---
 src/drel/py_from_ast.nw | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 863b436..92c45ef 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -18,6 +18,7 @@ if isinstance(u"abc",str):   #Python3
     unicode = str
 
 import re
+from ast import literal_eval
 from CifFile import CifError
 <<Configuration>>
 <<AST builder>>
@@ -302,6 +303,8 @@ mentioned so that we can create a dependency tree.
     elif node_type == "ITEM_TAG":
         return in_node[1]
     elif node_type == "LITERAL":
+        if "\n" in in_node[1]:   #the lines must not be indented
+            return repr(literal_eval(in_node[1]))
         return in_node[1]
     elif node_type == "LIST":
         if len(in_node)==1:  #empty list
@@ -322,7 +325,7 @@ mentioned so that we can create a dependency tree.
         else:
             outstring = "{"
         for table_elem in in_node[1:]:
-            outstring = outstring + traverse_ast(table_elem[0])+":"+traverse_ast(table_elem[1]) +","
+            outstring = outstring + traverse_ast(["LITERAL",table_elem[0]])+":"+traverse_ast(table_elem[1]) +","
         return outstring[:-1] + "}"
     <<Process subscriptions>>
     <<Process attribute reference>>
-- 
2.43.0


From 9ae19f06e9089ad0e3b8ce3654fb974788bc4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 094/104] fix: dREL *= and /= ended in KeyError

---
 src/drel/py_from_ast.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 92c45ef..5c8d7a6 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -798,6 +798,8 @@ mathop_table = {"+":None, "-":None, "<":"<", "*":None, "/":None,
 aug_assign_table = {"++=":"drel_runtime.aug_append",
                     "+=":"drel_runtime.aug_add",
                     "-=":"drel_runtime.aug_sub",
+                    "*=":"drel_runtime.drel_dot",
+                    "/=":"numpy.true_divide",
                     "--=":"drel_runtime.aug_remove"}
 
 @ To avoid cluttering up the main switch statement, we call out to this function
-- 
2.43.0


From 22128f945287580bb38734344f0fed984f6b69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 095/104] fix: Current_Row in a dREL method with other names of
 its category gave code that is not Python

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 5c8d7a6..2a07a0d 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -161,7 +161,7 @@ number of packets during execution of the method.
         end_body += "        if %s is None: %s = repeat(None)\n" % (one_opt,one_opt)
 
     if cur_row and len(actual_names) > 1:    #i.e. have real names from category
-        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % ("'"+actual_names[0]+"'"))
+        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % actual_names[0])
     elif cur_row and len(actual_names)==1:   #so no actual names available
 
         end_body += "        cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
-- 
2.43.0


From dcd40d3fa8d894699a32b4fa17e2ff9fa3e4b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 096/104] fix: Current_Row and missing optional values of one
 row of a category ended in NameError and TypeError

---
 src/drel/py_from_ast.nw | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 2a07a0d..31179a9 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -131,15 +131,18 @@ number of packets during execution of the method.
         actual_names+=['__row_id']
     final_names = actual_names[:]
     one_pack_names = [func_table["element_no"] % (a,"packet_no") for a in actual_names]
+    if cur_row:
+        one_pack_names[-1] = "packet_no"
     for n,k in enumerate(withtable.keys()):
         if withtable[k][2]:
             final_names[n]="__option_w%d"%n  #pre-evaluated
-            one_pack_names[n] = "__option_w%d"%n
+            one_pack_names[n] = "None if __option_w%d is None else " % n + func_table["element_no"] % ("__option_w%d"%n,"packet_no")
     map_names = ",".join(final_names)
     one_packet_each = ",".join(one_pack_names)
     preamble = "def %s(ciffile,packet_no=-1):\n" % (func_name)
+    preamble +="    from itertools import repeat\n"
     preamble +="    try:\n"
-    preamble +="        from itertools import repeat,imap\n"   #note that imap might fail
+    preamble +="        from itertools import imap\n"   #note that imap might fail
     preamble +="    except ImportError: #python3\n"
     preamble +="        imap = map\n"
     preamble +="    def drel_func(%s):\n" % dummy_vars
-- 
2.43.0


From 0f05912fc641308a399a90e9ccca8344a233026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 097/104] fix: a dREL string with a form feed or another
 separator of lines gave code that is not Python

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 31179a9..56217fc 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -306,7 +306,7 @@ mentioned so that we can create a dependency tree.
     elif node_type == "ITEM_TAG":
         return in_node[1]
     elif node_type == "LITERAL":
-        if "\n" in in_node[1]:   #the lines must not be indented
+        if len(in_node[1].splitlines())>1:   #the lines must not be indented
             return repr(literal_eval(in_node[1]))
         return in_node[1]
     elif node_type == "LIST":
-- 
2.43.0


From 791850523c71fa23b2ba7db567fc21dc0350fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 098/104] fix: an empty group in dREL ended in IndexError

---
 src/drel/py_from_ast.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 56217fc..00e87ef 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -697,6 +697,8 @@ Ultimately we end up with a list of statements.
             outstring += traverse_ast(one_expr) + "\n"
         return outstring
     elif node_type == "GROUP":
+        if len(in_node)==1:
+             return "()"
         outstring = "("
         for expression in in_node[1]:
              outstring = outstring + traverse_ast(expression) + ","
-- 
2.43.0


From 8801e314732063e21dd19cdb2e4c6adea19b8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 099/104] fix: a dREL attribute behind a keyed packet was
 looked up in the category of the packet

---
 src/drel/py_from_ast.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 00e87ef..5d77113 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -429,6 +429,7 @@ elif node_type == "ATTRIBUTE":  # id/tag , att
     outstring = ""
     newid = 0
     # check for special ids
+    special_info["sub_subject"] = ""   #from elsewhere
     primary = traverse_ast(in_node[1])  # this will set sub_subject if necessary
     for idtable in special_info["special_id"]:
         newid = idtable.get(primary,0)
@@ -741,8 +742,9 @@ elif node_type == "ASSIGN":  #Target_list ,assigner, expression list
     rhs = ""
     special_info["rhs"] = True
     for order,expression in enumerate(in_node[3]):
+        special_info["sub_subject"] = ""
         rhs += traverse_ast(expression)+","
-        if special_info["sub_subject"] != "":   #a full packet
+        if special_info["sub_subject"] != "" and expression[1][0] == "SUBSCRIPTION" and order < len(lhs_values):   #a full packet
             special_info["packet_vars"].update({lhs_values[order]:special_info["sub_subject"]})
             special_info["sub_subject"] = ""
     # we cannot expand a numpy array, hence the workaround here
-- 
2.43.0


From 557ba9dde9dbb16d9b6cd6a51c131f6c9fade7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 100/104] fix: a data name in a dREL method whose category is
 in another case stood for the column, not for the value in the row

---
 src/drel/py_from_ast.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 5d77113..d909582 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -238,9 +238,9 @@ def start_traverse(in_node,api_table,target_id=None,loopable={},cat_meth=False,d
   # create a virtual enclosing 'with' statement
   if target_id is not None and not cat_meth and not func:
       cat,name = getcatname(target_id)
-      special_info["special_id"][-1].update({"_"+cat:[cat,"",False]})
+      special_info["special_id"][-1].update({"_"+cat.lower():[cat,"",False]})
       if cat in special_info["loopable_cats"].keys():    #
-          special_info["special_id"][-1]["_"+cat][1] = "looped_cat"
+          special_info["special_id"][-1]["_"+cat.lower()][1] = "looped_cat"
   <<Maths operator conversion table>>
   def traverse_ast(in_node,debug=debug):
     if isinstance(in_node,(unicode,str)):
@@ -432,7 +432,7 @@ elif node_type == "ATTRIBUTE":  # id/tag , att
     special_info["sub_subject"] = ""   #from elsewhere
     primary = traverse_ast(in_node[1])  # this will set sub_subject if necessary
     for idtable in special_info["special_id"]:
-        newid = idtable.get(primary,0)
+        newid = idtable.get(primary.lower() if primary[:1] == "_" else primary,0)
         if newid: break
     if newid:
         #catch our output name
-- 
2.43.0


From ee1d97148ed388405df3d8d6f06b968a2c251df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 101/104] fix: a value that a dREL method needs was taken for
 optional when an if statement named it first

---
 src/drel/py_from_ast.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index d909582..91f6d76 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -453,6 +453,8 @@ elif node_type == "ATTRIBUTE":  # id/tag , att
                 new_var = "__w%d" % position
                 isoptional = special_info["inif"]
                 special_info["withtable"][true_name] = (new_var,position,isoptional)
+            elif not special_info["inif"]:   #needed in any case
+                special_info["withtable"][true_name] = special_info["withtable"][true_name][:2] + (False,)
             outstring += special_info["withtable"][true_name][0]
             special_info["depends"].add(true_name)
     elif in_node[1][0] == "ATOM" and primary[0] == "_":   # a cat/obj name
-- 
2.43.0


From 4cecbcebd5ea450730bc0abcffcf97ce53c160d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:17 +0000
Subject: [PATCH 102/104] fix: a loop in a dREL method whose index was compared
 with a variable named a was empty or complete

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 91f6d76..660577d 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -637,7 +637,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
         #outstring +="\n" + "for __noloop in [0]:"
     # deal with this comparison test
     if in_node[4] != "":
-        outstring += "\n" + "__loop_range%d = [a for a in __loop_range%d if a %s %s]" % (loop_num,loop_num,in_node[4],in_node[5])
+        outstring += "\n" + "__loop_range%d = [__pyrow for __pyrow in __loop_range%d if __pyrow %s %s]" % (loop_num,loop_num,in_node[4],in_node[5])
     # now output the looping command
     outstring += "\n" + "for %s in __loop_range%d:" % (loop_index,loop_num)
     # now the actual body of the loop
-- 
2.43.0


From 3c0f8654e6db728f557906bc6c4521aa61148a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:35 +0000
Subject: [PATCH 103/104] fix: a dREL method that mentions only optional items
 of its category never ended when none was there

---
 src/drel/py_from_ast.nw | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 660577d..efd3304 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -163,9 +163,11 @@ number of packets during execution of the method.
     for one_opt in optional_names:
         end_body += "        if %s is None: %s = repeat(None)\n" % (one_opt,one_opt)
 
-    if cur_row and len(actual_names) > 1:    #i.e. have real names from category
-        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % actual_names[0])
-    elif cur_row and len(actual_names)==1:   #so no actual names available
+    # the names that must be there give the number of rows
+    needed_names = [a for k,a in zip(withtable.keys(),actual_names) if not withtable[k][2]]
+    if cur_row and len(needed_names) > 0:    #i.e. have real names from category
+        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % needed_names[0])
+    elif len(needed_names)==0:   #so no actual names available
 
         end_body += "        cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
         end_body += "        have_name = [a for a in cat_names if %s]\n" % (func_table["has_name"] % "a")
@@ -175,7 +177,10 @@ number of packets during execution of the method.
         end_body += "        else:\n"
         end_body += "           return []\n"
 
-    end_body+=      "        return list(imap(drel_func,%s))\n" % (map_names+",")
+    if len(needed_names) > 0 or cur_row:
+        end_body+=      "        return list(imap(drel_func,%s))\n" % (map_names+",")
+    else:     #something has to stop
+        end_body+=      "        return list(imap(lambda __row,*args: drel_func(*args),__row_id,%s))\n" % map_names
     end_body+=     "    else:\n"
     end_body+=     "        return drel_func(%s)\n" % one_packet_each
 
-- 
2.43.0


From e93c88e979fd0902ff269ae4c0385bbd45a64da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:35 +0000
Subject: [PATCH 104/104] fix: current_row was only recognised as Current_Row
 in dREL methods

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index efd3304..b26572d 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -496,7 +496,7 @@ else multiple arguments are bundled into a list.
 
 <<Process function call>>=
 elif node_type == "FUNC_CALL":
-    if in_node[1] == "Current_Row":  #not a function but a keyword really
+    if in_node[1].lower() == "current_row":  #not a function but a keyword really
         outstring = "__current_row"
         special_info["need_current_row"]=True
     else:
-- 
2.43.0

