From 9d26711c1730996a4ab8e9a390ac720bf9782bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 01/58] fix: report the right line for an empty line, the end
 of text and U+0085

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 446cb7c..9416099 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -233,9 +233,9 @@ def _loc( input_file, pos, pointer = True ):
     eol = sou.find( EOL, pos )
     if eol == -1:
         eol = len( sou )
-    lnlist = sou[ :eol ].splitlines()
+    lnlist = sou[ :eol ].split( EOL )
     result += fmt % ( decl, len( lnlist ))
-    ln = lnlist[ -1 ].lstrip() if lnlist else '<not found>'
+    ln = lnlist[ -1 ].lstrip()
     result += LOC_LINE % ( ln )
     if pointer:
 #       -- pointer to target
-- 
2.43.0


From 06b9a53a78e9449a45694f550b61722845f6a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 02/58] fix: treat only LF as a line boundary in the generated
 text (U+0085 was replaced with LF)

---
 pp/yugen.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 9416099..e3e1b3e 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -208,6 +208,19 @@ LOC_MACRO = '\n  Macro "%s", line %d'
 LOC_LINE = '\n    %s'
 LOC_REPR = ': %s'
 
+#   ---------------------------------------------------------------------------
+def _split_lines( text ):
+    """
+    Split text into lines (keeping EOLs), only EOL is a line boundary.
+    """
+#   ---------------
+    lnlist = text.split( EOL )
+    last = lnlist.pop()
+    lnlist = [ ln + EOL for ln in lnlist ]
+    if last:
+        lnlist.append( last )
+    return lnlist
+
 #   ---------------------------------------------------------------------------
 def _loc_repr( x ):
     return LOC_REPR % ( repr( x )[ :ERR_SLICE ])
@@ -357,7 +370,7 @@ class PLAIN( BASE_STR ):
 #   -----------------------------------
     def add_indent( self, indent ):
         if self.indent is not None:
-            ln = self.splitlines( True )
+            ln = _split_lines( str( self ))
             if ord( self[ -1 ]) in ps_EOL:
                 ln.append( '' )
             return PLAIN( indent.join( ln )
@@ -2414,14 +2427,14 @@ class TRIM( BASE_OBJECT, CAPTION ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        return self.indent.join( dedent( plain ).splitlines( True ))
+        return self.indent.join( _split_lines( dedent( plain )))
 
 #   -----------------------------------
     def trim_with_browse( self, plain ):
         if not plain or not config.pp_trim_app_indent:
             return plain
 
-        lnlist = plain.splitlines( True )
+        lnlist = _split_lines( str( plain ))
 
 #       -- find shared indent, mark empty lines
         cutting = ''
@@ -3829,7 +3842,7 @@ def reduce_emptiness( text ):
         return text
 
     if isinstance( text, RESULT ):
-        lnlist = text.splitlines( True )
+        lnlist = _split_lines( str( text ))
 
 #       -- find empty lines
         empty = set()
@@ -3885,7 +3898,7 @@ def reduce_emptiness( text ):
 
     _filter.empty = False
 
-    return '\n'.join([ x.rstrip() for x in text.splitlines() if _filter( x )]) + '\n'
+    return '\n'.join([ x.rstrip() for x in _split_lines( text ) if _filter( x )]) + '\n'
 
 #   ---------------------------------------------------------------------------
 def replace_steady( text ):
-- 
2.43.0


From 1dac6f82eb01bcf1d94b667d920d37f3169aaabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 03/58] fix: keep letters U+00FE and U+00FF of the source (they
 were replaced with SPACE and TAB)

---
 pp/yugen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index e3e1b3e..2bdc7c6 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -769,7 +769,10 @@ ps_LETTER = frozenset( list( range( ord( 'a' ), ord( 'z' ) + 1 )) + list( range(
 #   ---- any figure
 ps_FIGURE = frozenset( list( range( ord( '0' ), ord( '9' ) + 1 )) + [ ord( '-' )])
 #   ---- any printable character
-ps_ANY = frozenset([ ord( EOL ), ord( '\r' ), ord( '\t' )] + list( range( ord( ' ' ), 256 )))
+#   -- steady SPACE and TAB (Unicode private use, to be distinct from any letter of source text)
+STEADY_SPACE = '\uE020'
+STEADY_TAB = '\uE009'
+ps_ANY = frozenset([ ord( x ) for x in ( EOL, '\r', '\t', STEADY_SPACE, STEADY_TAB )] + list( range( ord( ' ' ), 256 )))
 #   ---- code mark
 ps_CODE = '($code'
 l_CODE = len( ps_CODE )
@@ -2663,8 +2666,6 @@ class SKIP( BASE_MARK ):
 #   -----------------------------------
 
 SOURCE_EMPTY = '<null>'
-STEADY_SPACE = '\xFE'
-STEADY_TAB = '\xFF'
 
 #   ---------------------------------------------------------------------------
 def yushell( text, _input = None, _output = None ):
-- 
2.43.0


From 70b0071815d4993568b1168998ce64369075de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 04/58] fix: locate unexpected EOF and a forbidden character in
 the source

---
 pp/yugen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2bdc7c6..7323ab6 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1544,10 +1544,10 @@ def ps_plain( sou, pth_sq, pth, indent, depth = 0 ):
         symbol = _ord( sou, i )
 #   ---- ANY
         if symbol is None:
-            raise EOFError( '%s: unexpected EOF:' % ( callee()))
+            raise EOFError( '%s: unexpected EOF' % ( callee()) + sou.loc())
 
         if symbol not in ps_ANY:
-            raise SyntaxError( '%s: forbidden character' % ( callee()) + sou.loc())
+            raise SyntaxError( '%s: forbidden character' % ( callee()) + sou[ i: ].loc())
 
 #   ---- [switch ...
         if symbol == ord( '[' ):
@@ -2154,7 +2154,7 @@ def ps_string_python( sou, depth = 0 ):
         ln_start, ln_end = _getline( sou, ln_end )
         ln = sou[ ln_start:ln_end ]
         if not ln:
-            raise EOFError( '%s: unexpected EOF into multi-line string:' % ( callee()))
+            raise EOFError( '%s: unexpected EOF into multi-line string' % ( callee()) + sou.loc())
 
         mch_tail = re_tail.match( ln )
         if mch_tail:
-- 
2.43.0


From 121b888460cf30c3c56e60afe8083b11d75f7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 05/58] fix: keep the location of a string literal (errors and
 browse data lost it)

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 7323ab6..bdf7aee 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2078,13 +2078,13 @@ def ps_quote( sou, depth = 0 ):
 #   ---- C string
         mch = re_STR.match( sou )
         if mch:
-            leg = mch.group( 0 )
+            leg = sou[ :mch.end()]
             return ( sou[ mch.end(): ], STR( leg ))
 
 #   ---- chr
         mch = re_CHR.match( sou )
         if mch:
-            leg = mch.group( 0 )
+            leg = sou[ :mch.end()]
             return ( sou[ mch.end(): ], STR( leg ))
 
 #   ---- (` | ($quote
-- 
2.43.0


From 64db02c7f0cbec777c479abcc53fdf4e6f294b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 06/58] fix: locate the warnings about assignments

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index bdf7aee..4512238 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3529,7 +3529,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                             if isinstance( val, str ):
                                 yushell.output_file = feedback.output_file = str( _unq( val ))
                             else:
-                                log.warn( 'cannot assign a non-string value to __OUTPUT_FILE__' + node.loc())
+                                log.warn( 'cannot assign a non-string value to __OUTPUT_FILE__' + node.lval.loc())
                             return None
 
                 env_l = ENV( env )
@@ -3548,7 +3548,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                             if len( val ) > i:
                                 env_l[ var ] = val[ i ]
                             else:
-                                log.warn( 'there is nothing to assign to "%s"' % ( str( var )) + node.loc())
+                                log.warn( 'there is nothing to assign to "%s"' % ( str( var )) + var.loc())
                                 env_l[ var ] = None
                     else:
                         for var in node.lval:
-- 
2.43.0


From 55b30a8b8d6d49892358b0030555a4e7803896eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 07/58] fix: keep the location of an indented text of a macro
 in browse data

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 4512238..35d37b3 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -373,7 +373,7 @@ class PLAIN( BASE_STR ):
             ln = _split_lines( str( self ))
             if ord( self[ -1 ]) in ps_EOL:
                 ln.append( '' )
-            return PLAIN( indent.join( ln )
+            return PLAIN( SOURCE( indent.join( ln ), self.input_file, self.pos )
             , ( indent + self.indent ) if isinstance( self.indent, str ) else self.indent, self.trim )
 
         return self
-- 
2.43.0


From df65887b67171036361d53280b79e390bde55650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 08/58] fix: do not indent the text of a macro when the indent
 option is off

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 35d37b3..27f7eea 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3172,7 +3172,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                     if isinstance( x, EMBED ):
                         if isinstance( x.ast, T ):
 #                           -- add indent of application to each line of substituting text
-                            if node.indent:
+                            if node.indent and config.pp_trim_app_indent:
                                 for ii, xx in enumerate( x.ast ):
                                     if isinstance( xx, PLAIN ):
                                         x.ast[ ii ] = xx.add_indent( node.indent )
-- 
2.43.0


From 9ce6757c0a756caeae86594fecb0d39ff8f20a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 09/58] fix: trim substituted text in the same way with and
 without browse data

---
 pp/yugen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 27f7eea..1c4e9da 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2444,7 +2444,7 @@ class TRIM( BASE_OBJECT, CAPTION ):
         empty = set()
         for i, ln in enumerate( lnlist ):
             ( rest, indent ) = ps_space( ln )
-            if rest == EOL:
+            if not rest or rest == EOL:
 #               -- skip empty line
                 empty.add( i )
                 continue
@@ -2468,8 +2468,8 @@ class TRIM( BASE_OBJECT, CAPTION ):
 #               -- line less deeply indented
                 cutting = indent
             else:
-#               -- no common indent
-                cutting = None
+#               -- part of indent is common (or nothing)
+                cutting = ''.join( a for j, a in enumerate( cutting ) if indent.startswith( cutting[ :j + 1 ])) or None
 
 #       -- remove shared indent, add specified indent
         c = len( cutting ) if cutting is not None else 0
-- 
2.43.0


From ba1a32e846c74c2ae38a9130cc5161b24e3963d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 10/58] fix: convert octal numbers, numbers with a gap after
 the sign and with a long suffix

---
 pp/yugen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 1c4e9da..9784440 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -833,8 +833,12 @@ re_INT = re.compile( r"""
   | [1-9]\d*               #  decimal
 )[lL]?
 """, re.VERBOSE )
+#   ---- octal number with leading zero
+re_OCT = re.compile( r'^[+-]?0[0-7]+$' )
+#   ---- gap between sign and number
+re_SIGN_GAP = re.compile( r'^([+-])[ \t]+' )
 #   ---- float
-re_FLOAT = re.compile( r'^[+-]? *(?:\d+(?:\.\d+))(?:[eE][+-]?\d+)?' )
+re_FLOAT = re.compile( r'^[+-]?[ \t]*(?:\d+(?:\.\d+))(?:[eE][+-]?\d+)?' )
 #   ---- string literal
 re_STR = re.compile( r'^"(?:\\.|[^\\"])*"' )
 #   ---- character literal
@@ -2209,16 +2213,14 @@ def ps_number( sou, depth = 0 ):
 #   ---- float
     mch = re_FLOAT.match( sou )
     if mch:
-        leg = mch.group( 0 )
+        leg = re_SIGN_GAP.sub( r'\1', mch.group( 0 ))
         return ( sou[ mch.end(): ], FLOAT( leg ))
 
 #   ---- integer
     mch = re_INT.match( sou )
     if mch:
-        leg = mch.group( 0 )
-        if leg[ -1 ] in [ 'l', 'L' ]:
-            leg = leg[ :-1 ]
-        return ( sou[ mch.end(): ], INT( leg, 0 ))
+        leg = re_SIGN_GAP.sub( r'\1', mch.group( 0 )).rstrip( 'lL' )
+        return ( sou[ mch.end(): ], INT( leg, 8 if re_OCT.match( leg ) else 0 ))
 
     return ( sou, None )
 
-- 
2.43.0


From 04c16baf40e6edf7963cde513f2f9320c9fb8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 11/58] fix: find the end of a continued string that contains
 the other quote

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 9784440..8ad8b02 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2146,7 +2146,8 @@ def ps_string_python( sou, depth = 0 ):
                 return ( sou[ p: ], STR( sou[ :p ]))
 
 #           -- tail on other line
-            re_tail = ps_string_python.re_STR_1x1_TAIL if "'" in head else ps_string_python.re_STR_1x2_TAIL
+            re_tail = ( ps_string_python.re_STR_1x1_TAIL if head.lstrip( 'uUrR' ).startswith( "'" )
+            else ps_string_python.re_STR_1x2_TAIL )
             _1x = True
     else:
         return ( sou, None )
-- 
2.43.0


From 3f77c81215d4cd5edb31bb0dcaf8f8fc202bc65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 12/58] fix: report unexpected EOF after a construct (an
 internal error was reported)

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 8ad8b02..81a3118 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1015,7 +1015,7 @@ def ps_text( sou, depth = 0 ):
 #   ---------------
     ast = []
     depth_pth_sq = depth_pth = 0
-    _plain_ret = ''
+    _plain_ret = None
     while True:
         trace__ps_( 'ps_text', sou, depth )
 #   ---- set
@@ -2096,7 +2096,7 @@ def ps_quote( sou, depth = 0 ):
     if pos:
         sou = sou[ pos: ]
         if sou[ :1 ] == ')':
-            return ( sou[ 1: ], STR( '' ))
+            return ( sou[ 1: ], STR( sou[ :0 ]))
 
         plain = ps_plain( sou, 0, 0, None, depth + 1 )
         while True:
-- 
2.43.0


From 4f547806e1e3b4eca888ba7a553aed3009630e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 13/58] fix: refuse unsuitable arguments of "reduce"

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 81a3118..3829c64 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3230,7 +3230,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                             return node
 
                         if node.fn.atom == 'reduce':
-                            if len( node.args ) < 2 and not isinstance( node.args[ 0 ], BUILTIN ):
+                            if len( node.args ) < 2 or not isinstance( node.args[ 0 ], BUILTIN ):
                                 raise TypeError( '%s: unexpected arguments of "reduce"' % ( _callee())
                                 + node.fn.atom.loc())
 
-- 
2.43.0


From 8868e499905354299436ea77b95b05a4c94c91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 14/58] fix: a negative index outside the list selects nothing,
 as a positive one does

---
 pp/yugen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 3829c64..3f6b32a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3297,9 +3297,10 @@ def yueval( node, env = ENV(), depth = 0 ):
                             pos = int( node.fn )
 #                           -- (syntactic sugar) if only one argument and it's a list - apply operation to it
                             if len( node.args ) == 1 and isinstance( node.args[ 0 ], list ):
-                                return node.args[ 0 ][ pos ] if pos < len( node.args[ 0 ]) else None
+                                lst = node.args[ 0 ]
                             else:
-                                return node.args[ pos ] if pos < len( node.args ) else None
+                                lst = node.args
+                            return lst[ pos ] if -len( lst ) <= pos < len( lst ) else None
 
 #                       -- irreducible
                         return node
-- 
2.43.0


From d81fc8eace190c59ed661351f1b8a06bf955193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 15/58] fix: accept the end tag of "emit" without a function

---
 pp/yugen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 3f6b32a..90d16df 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1304,11 +1304,15 @@ def ps_emit( sou, depth = 0 ):
     var = leg
 #   ---- gap
     ( sou, _ ) = ps_gap( sou, depth + 1 )
+    leg = None
+#   -- it can be a tag but not a lambda
+    ( look, _ ) = ps_gap( sou[ l_EMIT_T: ], depth + 1 )
+    if sou[ :l_EMIT_T ] != ps_EMIT_T or look[ :1 ] != ')':
 #   ---- { form }
-    ( sou, leg ) = ps_form( sou, depth + 1 )
-    if leg is not None:
+        ( sou, leg ) = ps_form( sou, depth + 1 )
+        if leg is not None:
 #   ---- gap
-        ( sou, _ ) = ps_gap( sou, depth + 1 )
+            ( sou, _ ) = ps_gap( sou, depth + 1 )
 #   ---- { \emit }
     if sou[ :l_EMIT_T ] == ps_EMIT_T:
         ( sou, _ ) = ps_gap( sou[ l_EMIT_T: ], depth + 1 )
-- 
2.43.0


From 7e3b5da9c87cd6d7ac06e9a8fd38d83296dfe2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 16/58] fix: accept an empty embedded list after the last
 argument inside a function

---
 pp/yugen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 90d16df..d5b5652 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3315,6 +3315,10 @@ def yueval( node, env = ENV(), depth = 0 ):
                 elif isinstance( node.fn, TEXT ) or isinstance( node.fn, T ):
 #                   -- !? (unreachable code)
                     if node.args or node.named:
+                        if any( isinstance( x, EMBED ) for x in node.args ):
+#                           -- irreducible (there may be no arguments)
+                            return node
+
                         raise TypeError( '%s: no arguments of text expected' % ( _callee())
                         + node.loc())
 
-- 
2.43.0


From a85287a65248d111d136e7a11827feefe05785b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 17/58] fix: keep a reference to a parameter from being
 captured by another binding of its name

---
 pp/yugen.py | 65 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index d5b5652..12ad01a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -589,6 +589,8 @@ class VAR( BASE_OBJECT ):
     def __init__( self, reg, atom ):
         self.reg = reg
         self.atom = atom
+#       -- irreducible variable: which binding of the name it is (see ENV.mark)
+        self.mark = None
 
 #   -----------------------------------
     def __repr__( self ):
@@ -2532,11 +2534,16 @@ class ENV( dict ):
     Environment.
     AST: ENV( ENV, [ ( var, value ) ])
     """
+#   ---------------
+    count = 0
+
 #   -----------------------------------
     def __init__( self, parent = None, local = None ):
         dict.__init__( self )
         self.parent = parent
         self.order = []
+#       -- { var: number of binding } -- to distinguish bindings of the same name
+        self.mark = {}
         if local:
             for key, value in local:
                 self.__setitem__( key, value )
@@ -2546,6 +2553,9 @@ class ENV( dict ):
         if key in self.order:
             self.order.remove( key )
         self.order.append( key )
+        if isinstance( value, BOUND ):
+            ENV.count += 1
+            self.mark[ key ] = ENV.count
 
         dict.__setitem__( self, key, value )
 
@@ -2578,29 +2588,44 @@ class ENV( dict ):
             yield key, self.__getitem__( key )
 
 #   -----------------------------------
-    def lookup( self, reg, var ):                                                                                      #pylint: disable=unused-argument
-        del reg
+    def find( self, var ):
+#       -- variable that was irreducible belongs to the same binding, not to the nearest one
+        if var.mark is not None:
+            env = self
+            while env is not None:
+                if env.mark.get( var.atom ) == var.mark:
+                    return env
+
+                env = env.parent
+
         env = self
         while env is not None:
-            if env.__contains__( var ):
-                return env.__getitem__( var )
+            if env.__contains__( var.atom ):
+                return env
 
             env = env.parent
 
         return NOT_FOUND
 
 #   -----------------------------------
-    def update_variable( self, reg, var, value ):                                                                      #pylint: disable=unused-argument
-        del reg
-        env = self
-        while env is not None:
-            if env.__contains__( var ):
-                dict.__setitem__( env, var, value )
-                return var
+    def lookup( self, var ):
+        env = self.find( var )
+        if env is NOT_FOUND:
+            return NOT_FOUND
 
-            env = env.parent
+        val = env.__getitem__( var.atom )
+        if isinstance( val, BOUND ):
+            var.mark = env.mark.get( var.atom )
+        return val
 
-        return NOT_FOUND
+#   -----------------------------------
+    def update_variable( self, var, value ):
+        env = self.find( var )
+        if env is NOT_FOUND:
+            return NOT_FOUND
+
+        dict.__setitem__( env, var.atom, value )
+        return var.atom
 
 #   -----------------------------------
     def unassigned( self ):
@@ -2621,8 +2646,10 @@ class ENV( dict ):
 
 #   -----------------------------------
     def __deepcopy__( self, memo = None ):
-        return ENV( copy.deepcopy( self.parent, memo )
+        env = ENV( copy.deepcopy( self.parent, memo )
         , [( key, copy.deepcopy( self.__getitem__( key ), memo )) for key in self.order ])
+        env.mark = self.mark.copy()
+        return env
 
 #   -----------------------------------
 #   -- debug message
@@ -3453,7 +3480,7 @@ def yueval( node, env = ENV(), depth = 0 ):
 
 #   ---- VAR
             elif isinstance( node, VAR ):
-                val = env.lookup( node.reg, node.atom )
+                val = env.lookup( node )
                 if val is NOT_FOUND:
 #   ---- VAR -- LATE_BOUND
                     if isinstance( node.reg, LATE_BOUND ):
@@ -3491,7 +3518,7 @@ def yueval( node, env = ENV(), depth = 0 ):
             elif isinstance( node, LAMBDA ):
 #   ---- LAMBDA -- VAR
                 if isinstance( node.bound, VAR ):
-                    val = env.lookup( node.bound.reg, node.bound.atom )
+                    val = env.lookup( node.bound )
                     if isinstance( val, BOUND ):
 #                       -- irreducible
                         return node
@@ -3669,7 +3696,7 @@ def yueval( node, env = ENV(), depth = 0 ):
 
                 env_l = ENV()
                 for name in infix_visitor.names:
-                    val = env.lookup( [], name )
+                    val = env.lookup( VAR( [], name ))
                     if val is not NOT_FOUND:
                         env_l[ ATOM( name )] = VAR( [], ATOM( name ))
 
@@ -3696,7 +3723,7 @@ def yueval( node, env = ENV(), depth = 0 ):
 
 #   ---- EMIT
             elif isinstance( node, EMIT ):
-                val = env.lookup( node.var.reg, node.var.atom )
+                val = env.lookup( node.var )
                 if val is NOT_FOUND:
                     raise TypeError( '%s: undefined variable "%s"' % ( _callee(), str( node.var.atom ))
                     + node.var.atom.loc())
@@ -3717,7 +3744,7 @@ def yueval( node, env = ENV(), depth = 0 ):
 
                 if node.ast:
                     val = yueval( APPLY( node.ast, [ val ], []), env, depth + 1 )
-                    env.update_variable( node.var.reg, node.var.atom, val )
+                    env.update_variable( node.var, val )
                 return result
 
 #   ---- LIST | list
-- 
2.43.0


From 04d1b5d039e8b6fe502ace3622c9d7f2d453aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 18/58] fix: keep characters beyond ASCII when a text without
 quotes is unquoted

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 12ad01a..36fa2c8 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -870,7 +870,7 @@ def _unq( st ):
 
                 return result
 
-            result = codecs.unicode_escape_decode( st )[ 0 ]
+            result = codecs.unicode_escape_decode( st.encode( 'latin-1', 'backslashreplace' ))[ 0 ]
             if isinstance( st, STR ):
                 return STR( result, st.input_file, st.pos )
 
-- 
2.43.0


From 0bcd7b21f23c0097bd75145ef42fcc381818d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 19/58] fix: do not search substituted arguments of a macro or
 a string for fields

---
 pp/yugen.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 36fa2c8..2950f97 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2858,6 +2858,20 @@ builtin_special.update({
 def _plain_back( st ):
     return '()' if st == [] else str( st )
 
+#   ---------------------------------------------------------------------------
+def _substitute( text, fields ):
+    """
+    Replace every field "($name)" of text at one go, so substituted values are not searched for fields.
+    """
+#   ---------------
+    values = {}
+    for name, val in fields:
+        values.setdefault( '($' + str( name ) + ')', val )
+    if not values:
+        return text
+
+    return re.sub( '|'.join( re.escape( x ) for x in values ), lambda m : values[ m.group( 0 )], text )
+
 #   ---------------------------------------------------------------------------
 def _is_term( node ):                                                                                                  #pylint: disable=too-many-return-statements
     """
@@ -3439,11 +3453,8 @@ def yueval( node, env = ENV(), depth = 0 ):
 #                       -- irreducible
                         return node
 
-                    for i, val in enumerate( node.args ):
-                        node.fn = node.fn.replace( '($' + str( i ) + ')', _plain( val ))
-                    for var, val in node.named:
-                        node.fn = node.fn.replace( '($' + str( var ) + ')', _plain( val ))
-                    return STR( node.fn )
+                    return STR( _substitute( node.fn, [( i, _plain( val )) for i, val in enumerate( node.args )]
+                    + [( var, _plain( val )) for var, val in node.named ]))
 
 #   ---- APPLY -- list ("for each" loop)
                 elif isinstance( node.fn, list ):
@@ -3622,8 +3633,7 @@ def yueval( node, env = ENV(), depth = 0 ):
 #                   -- irreducible
                     return node
 
-                for var, val in node.env.xlocal():
-                    node.l_form = node.l_form.replace( '($' + str( var ) + ')', _plain_back( val ))
+                node.l_form = _substitute( node.l_form, [( var, _plain_back( val )) for var, val in node.env.xlocal()])
                 node = EVAL( node.l_form, node.decl, node.call )
                 # fall through -- yueval( node )
 
-- 
2.43.0


From 409728d76120965a86c0f27f8af46cbbea95acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 20/58] fix: forget the items of the previous calls of unique

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 2950f97..6c0f549 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2828,7 +2828,7 @@ builtin.update({
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-    'unique': lambda l, s=set() : LIST( x for x in l if not ( x in s or s.add( x ))),
+    'unique': lambda l : LIST( x for i, x in enumerate( l ) if x not in l[ :i ]),
     'unq': _unq,
 })
 
-- 
2.43.0


From efd5266aad30ba4bef12613cf087031499329356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 21/58] fix: make atol work under Python 3

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 6c0f549..374909b 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2768,7 +2768,7 @@ if 'lower' not in builtin:
         'rfind': lambda s, *args : s.rfind( *args ),
         'atof': lambda s : float( s ),
         'atoi': lambda s , base=10 : int( s, base ),
-        'atol': lambda s, base=10 : long( s, base ),
+        'atol': lambda s, base=10 : int( s, base ),
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
-- 
2.43.0


From f0120ecef42217dede6139b9753903635d8ab6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 22/58] fix: make maketrans and translate work under Python 3

---
 pp/yugen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 374909b..0a38075 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2774,7 +2774,8 @@ if 'lower' not in builtin:
         'center': lambda s, width, *args : s.center( width, *args ),
         'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else repr( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
-        'translate': lambda s, table, deletions="" : s.translate( table, deletions ) if deletions or table is None else s.translate( table + s[ :0 ]),
+        'maketrans': lambda fr, to : ''.join( chr( x ) for x in range( 256 )).translate( str.maketrans( fr, to )),
+        'translate': lambda s, table, deletions="" : ''.join( x for x in s if x not in deletions ).translate( table ),
         'capitalize': lambda s : s.capitalize(),
         'replace': lambda s, old, new, maxreplace=-1 : s.replace( old, new, maxreplace )
     })
-- 
2.43.0


From 0282dcc00b4506ee04aded084b1b0fdff65e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 23/58] fix: pad the digits of a number by zfill

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0a38075..1155bda 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2772,7 +2772,7 @@ if 'lower' not in builtin:
         'ljust': lambda s, width, *args : s.ljust( width, *args ),
         'rjust': lambda s, width, *args : s.rjust( width, *args ),
         'center': lambda s, width, *args : s.center( width, *args ),
-        'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else repr( x ).zfill( width ),
+        'zfill': lambda x, width : x.zfill( width ) if isinstance( x, str ) else str( x ).zfill( width ),
         'expandtabs': lambda s, tabsize=8 : s.expandtabs( tabsize ),
         'maketrans': lambda fr, to : ''.join( chr( x ) for x in range( 256 )).translate( str.maketrans( fr, to )),
         'translate': lambda s, table, deletions="" : ''.join( x for x in s if x not in deletions ).translate( table ),
-- 
2.43.0


From 37e2c8fbd045525dec056526216e003b2de7238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 24/58] fix: define the documented function repeat under Python
 3

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 1155bda..27b4fe2 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2818,6 +2818,7 @@ builtin.update({
     'q': lambda val : STR( '"%s"' % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
     'qs': lambda val : STR( "'%s'" % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
     'range': lambda *l : LIST( list( range( *l ))),
+    'repeat': operator.mul,
     'reversed': lambda val : val[ ::-1 ],
     're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x is not None ]),
 # -- redefine
-- 
2.43.0


From c5121b96356f8955e8013064758b6512d98ea8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 25/58] fix: drop empty items of re-split as documented

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 27b4fe2..b302013 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2820,7 +2820,7 @@ builtin.update({
     'range': lambda *l : LIST( list( range( *l ))),
     'repeat': operator.mul,
     'reversed': lambda val : val[ ::-1 ],
-    're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x is not None ]),
+    're-split': lambda regex, val : LIST([ x for x in re.split( regex, val ) if x ]),
 # -- redefine
     'rindex': lambda l, val : ( len( l ) - 1 ) - l[ ::-1 ].index( val ) if val in l else -1,
     'round': round,
-- 
2.43.0


From e5e2097668c32e91362bef844299a270c33c7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 26/58] fix: return the parts of modf as a list

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index b302013..0884eb8 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2810,6 +2810,7 @@ builtin.update({
     'islist': lambda l : isinstance( l, list ),
     'len': len,
     'list': lambda *l : LIST( l ),
+    'modf': lambda x : LIST( math.modf( x )),
     'not': operator.not_,
     'oct': oct,
     'or': operator.or_,
-- 
2.43.0


From 1206d095f4c1b575c2e7c422dda9ed365ef06166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 27/58] fix: take a slice up to the end when getslice is given
 no end

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0884eb8..d6a7da0 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2800,7 +2800,7 @@ builtin.update({
     'crc32': lambda val : ( zlib.crc32( bytes( val, 'utf8' )) & 0xffffffff ),
     'dec': lambda val : ( val - 1 ),
     'div': operator.truediv,
-    'getslice': lambda l, *sl : l[ slice( *( None if x == '' else x for x in sl ))],
+    'getslice': lambda l, start, *sl : l[ slice( *( None if x == '' else x for x in ( start, ) + ( sl or ( '', ))))],
     'hex': hex,
     'inc': lambda val : ( val + 1 ),
 # -- redefine
-- 
2.43.0


From 48038078b346577a13c5883e82e58e21af382650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 28/58] fix: report a failure when the output cannot be written

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index cd3f586..958e5ee 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -429,6 +429,7 @@ def _pp_stream( _stream, fn, fn_o ):
     except IOError as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
+        ok, plain = False, None
 
     return ( ok, plain, fn_o )
 
-- 
2.43.0


From 5f26860d6215d285e61c557283e6ac6b9aa2a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 29/58] fix: go on with the next file when one cannot be
 decoded or encoded

---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 958e5ee..2799a44 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -426,7 +426,7 @@ def _pp_stream( _stream, fn, fn_o ):
                 shell_savetofile( fn_o, plain )
                 log.warn( 'result was saved as AST file' )
 
-    except IOError as e:
+    except ( IOError, UnicodeError ) as e:
 #       -- e.g. file operation failure
         log.critical( FAIL, type( e ).__name__, str( e ))
         ok, plain = False, None
-- 
2.43.0


From e83035d1c088f92176c013a6e29cb8e7b9ee97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 30/58] fix: keep exit status nonzero whatever number of files
 is failed

---
 pp/yup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 2799a44..5916abf 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -592,7 +592,8 @@ def cli( arglist ):
                     break
                 config.passage += 1
 
-        return f_failed << 2
+#       -- exit status is limited to 8 bits
+        return min( f_failed, 63 ) << 2
 
     else:
 #       -- Read-Eval-Print Loop
-- 
2.43.0


From 851f193d74d096dbd89476fca6727b1b8f7941f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 31/58] fix: return the exit status when yupp is started as a
 package or a console script

---
 __main__.py    | 4 ++--
 pp/__main__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/__main__.py b/__main__.py
index bb3893c..1850ffa 100644
--- a/__main__.py
+++ b/__main__.py
@@ -21,8 +21,8 @@ from .pp.yup import cli
 
 #   ---------------------------------------------------------------------------
 def main():
-    cli( sys.argv[ 1: ])
+    return cli( sys.argv[ 1: ])
 
 #   ---------------------------------------------------------------------------
 if __name__ == '__main__':
-    main()
+    sys.exit( main())
diff --git a/pp/__main__.py b/pp/__main__.py
index 5451dce..82903da 100644
--- a/pp/__main__.py
+++ b/pp/__main__.py
@@ -2,4 +2,4 @@ import sys
 from .yup import cli
 
 if __name__ == '__main__':
-    cli( sys.argv[ 1: ])
+    sys.exit( cli( sys.argv[ 1: ]))
-- 
2.43.0


From 4f6f8ce74e4b53c718853359cc1833f4791eab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 32/58] fix: give the output its name when it is complete

---
 pp/yup.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 5916abf..f7be545 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -73,6 +73,7 @@ E_YUGEN   = '.yugen'
 E_YUCFG   = '.yuconfig'
 re_e_yu   = re.compile( r'\.yu(?:-([^.]+))?$', flags = re.IGNORECASE )
 E_BAK     = '.bak'
+E_TMP     = '.tmp'
 E_AST     = '.ast'
 
 QUIET_HELP = """
@@ -229,8 +230,13 @@ def shell_backup( fn ):
 
 #   ---------------------------------------------------------------------------
 def shell_savetofile( fn, text ):
-    with open( fn, mode='w', encoding='utf8' ) as f:
+#   -- an incomplete file has another name
+    fn_tmp = fn + E_TMP
+    with open( fn_tmp, mode='w', encoding='utf8' ) as f:
         f.write( text )
+    if os.path.isfile( fn ):
+        os.remove( fn )
+    os.rename( fn_tmp, fn )
 
 
 #   * * * * * * * * * * * * * * * * * *
-- 
2.43.0


From c411019c98ace58ed1b65dc26aef6e77b702ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 33/58] fix: delete "yupp." found by the pattern from a magic
 comment in any letter case

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index d6a7da0..a9f0186 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -1517,8 +1517,8 @@ def ps_header_python( sou, depth = 0 ):
                     return ( rest, header )
 
 #               -- delete 'yupp.' from a magic comment
-                i = leg.find( ps_CODING )
-                header.extend(( REMARK( leg[ :i ]), REMARK( leg[( i + l_CODING ): ])))
+                i = mch.start( 1 ) + 1
+                header.extend(( REMARK( leg[ :( i - l_CODING )]), REMARK( leg[ i: ])))
                 return ( rest, header )
 
 #           -- save shebang and goto the next line
-- 
2.43.0


From 6e2bfb229d0452692b8b7395d78940b40c74f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 34/58] fix: accept a source that consists of a magic comment
 only

---
 pp/yugen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index a9f0186..4d44ba2 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -977,6 +977,7 @@ def yuparse( input_file ):
             ( sou, header ) = ps_header_python( sou, 0 )
 
 #   ---- text
+        ast = TEXT([])
         text = ps_text( sou, 0 )
         while sou:
             ( sou, ast ) = next( text )
-- 
2.43.0


From 556dccefb566ae5b3bdf824eeb30e6e046cada42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 35/58] fix: read generated code back in the encoding it is
 written in

---
 pp/yup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index f7be545..f59f897 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -536,7 +536,7 @@ def proc_stream( _stream, fn ):
 #           -- if sources of dependencies are not changed...
             if all( _getmtime( d ) < t for d in deps ):
 #               -- ...just read output file
-                with open( fn_o, 'r' ) as f:
+                with open( fn_o, 'r', encoding='utf8' ) as f:
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-- 
2.43.0


From b61346174b8bf572515fc68d224ac44ae2aee675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 36/58] fix: return the name of output file set by the source

---
 pp/yup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pp/yup.py b/pp/yup.py
index f59f897..9e833a6 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -546,8 +546,9 @@ def proc_stream( _stream, fn ):
 #           -- process input file in the usual way
             pass
 
-    ok, data, _ = _pp_stream( _stream, fn, fn_o )
-    return ( ok, data, fn_o, yushell.shrink )
+    ok, data, fn_w = _pp_stream( _stream, fn, fn_o )
+#   -- name of output file can be changed by the source
+    return ( ok, data, fn_w if ok else fn_o, yushell.shrink )
 
 #   ---------------------------------------------------------------------------
 def proc_file( fn ):
-- 
2.43.0


From 53713e5606b4a4661b365ee50f3845218c2bdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 37/58] fix: find a magic comment in the same way wherever it
 is read again

---
 __init__.py |  3 ++-
 pp/yup.py   | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/__init__.py b/__init__.py
index c5ccd7c..93bdeaf 100644
--- a/__init__.py
+++ b/__init__.py
@@ -26,6 +26,7 @@ from encodings import utf_8, search_function
 from .pp.yulic import VERSION, DESCRIPTION, HOLDER, EMAIL
 from .pp.yup import cli
 from .pp.yup import proc_file as translate
+from .pp.yugen import re_CODING
 
 #   ---------------------------------------------------------------------------
 __pp_name__      = 'yupp'
@@ -44,7 +45,7 @@ def read_header( fn ):
     try:
         with open( fn, 'r' ) as f:
             header = f.readline()
-            if 'coding:' not in header:
+            if not re_CODING.search( header ):
                 header += f.readline()
     except:
         pass
diff --git a/pp/yup.py b/pp/yup.py
index 9e833a6..8689683 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -36,6 +36,7 @@ except:
 from .yugen import log, trace
 from .yugen import config, feedback, yushell, yuinit, yuparse, yueval, RESULT
 from .yugen import make_ast_readable, reduce_emptiness, replace_steady
+from .yugen import re_CODING
 
 from .yulic import *                                                                                                    #pylint: disable=wildcard-import
 from .yuconfig import *                                                                                                 #pylint: disable=wildcard-import,unused-wildcard-import
@@ -515,6 +516,15 @@ def _getmtime( fn ):
         log.warn( 'unable to check dependency\n%s: %s', type( e ).__name__, str( e ))
         raise
 
+#   ---------------------------------------------------------------------------
+def _shrink( _stream ):
+#   -- find a magic comment
+    for i in ( 1, 2 ):
+        if re_CODING.search( _stream.readline()):
+            return i
+
+    return 0
+
 #   ---------------------------------------------------------------------------
 def proc_stream( _stream, fn ):
     """
@@ -540,7 +550,7 @@ def proc_stream( _stream, fn ):
                     data = f.read()
 
                 # print( 'skipped yupp running' )
-                return ( True, data, fn_o, 1 if 'coding:' in _stream.readline() else 2 )
+                return ( True, data, fn_o, _shrink( _stream ))
 
         except:                                                                                                        #pylint: disable=bare-except
 #           -- process input file in the usual way
-- 
2.43.0


From b8be6bf5e196d21a8c8b07c180b9846be4450f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 38/58] fix: make "yupp.<encoding>" work, codec info has
 lower-case attributes

---
 __init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/__init__.py b/__init__.py
index 93bdeaf..8255141 100644
--- a/__init__.py
+++ b/__init__.py
@@ -112,12 +112,12 @@ def incremental_decoder_factory( basecodec ):
 def stream_decoder_factory( basecodec ):
 
 #   -----------------------------------
-    class StreamReader( basecodec.StreamReader ):
+    class StreamReader( basecodec.streamreader ):
 
         def __init__( self, *args, **kwargs ):
             from io import StringIO
 
-            basecodec.StreamReader.__init__( self, *args, **kwargs )
+            basecodec.streamreader.__init__( self, *args, **kwargs )
             self.stream = StringIO( decode_stream( self.stream.name, self.stream ))
 
     return StreamReader
@@ -145,15 +145,15 @@ def yupp_search_function( coding ):
             return None
 
 #       -- default encoding: UTF-8
-        basecodec = utf_8
+        basecodec = utf_8.getregentry()
 
     return codecs.CodecInfo(
         name=__pp_name__,
         encode=basecodec.encode,
         decode=decoder_factory( basecodec ),
-        incrementalencoder=basecodec.IncrementalEncoder,
+        incrementalencoder=basecodec.incrementalencoder,
         incrementaldecoder=incremental_decoder_factory( basecodec ),
-        streamwriter=basecodec.StreamWriter,
+        streamwriter=basecodec.streamwriter,
         streamreader=stream_decoder_factory( basecodec )
     )
 
-- 
2.43.0


From 6f5b7c3a63c82ddcbb360a9ebe152dcac738ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 39/58] fix: define print_exc of the traceback module under
 Python 3

---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index ce98dd2..6fb6d9f 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -13,7 +13,7 @@ import linecache
 import sys
 
 import traceback
-from traceback import FrameSummary
+from traceback import FrameSummary, print_exc
 
 import os.path
 import functools
-- 
2.43.0


From 8b03f71e3a19698f661840092c848d4ec3d6a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 40/58] fix: do not change line numbers of other files in a
 traceback

---
 pylib/yutraceback3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/yutraceback3.py b/pylib/yutraceback3.py
index 6fb6d9f..362bc26 100644
--- a/pylib/yutraceback3.py
+++ b/pylib/yutraceback3.py
@@ -62,7 +62,7 @@ class StackSummary(list):
                 filename, shrink = substitution.files[co.co_filename]
             else:
                 filename = co.co_filename
-                shrink = 0
+                shrink = 1
             lineno -= shrink - 1
             if lineno < 1: lineno = 1
 #           --
-- 
2.43.0


From d4974abe5ef52018b744da53ecb82fe31a63fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 41/58] fix: forget constants and imported functions of the
 previous file

---
 pp/yugen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 4d44ba2..01aed6a 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2836,8 +2836,13 @@ builtin.update({
     'unq': _unq,
 })
 
+#   -- definitions from a configuration and imported scripts belong to a single run
+_builtin_initial = dict( builtin )
+
 #   ---------------------------------------------------------------------------
 def _update_builtin_from_config():
+    builtin.clear()
+    builtin.update( _builtin_initial )
     for x in config.pp_define:
         pair = x.split( ':', 1 )
         rest, atom = ps_atom( pair[ 0 ].strip())
-- 
2.43.0


From d70057034e31464b8f52088ecc659efa8e4fe437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 42/58] fix: do not execute an imported script inside a loaded
 module of the same name

---
 pp/yugen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 01aed6a..fc8a00c 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -921,6 +921,8 @@ def _import_python( name, script ):
             lpath = os.path.join( d, script )
             if os.path.isfile( lpath ):
                 break
+#   -- a module of the same name must not be reused
+    mod_same = sys.modules.pop( name, None )
     try:
         mod = imp.load_source( name, str( lpath ))
         builtin.update( vars( mod ))
@@ -928,6 +930,10 @@ def _import_python( name, script ):
         e_type, e, tb = sys.exc_info()
         raise_( e_type, 'ps_import_python: %s' % ( e ) + script.loc(), tb )
 
+    finally:
+        if mod_same is not None:
+            sys.modules[ name ] = mod_same
+
     yushell.script.append( script )
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From b84bbbd983ea98c226792cec619eeb105fab74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 43/58] fix: ignore numbers in place of lists in a
 configuration

---
 pp/yup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pp/yup.py b/pp/yup.py
index 8689683..d4a11fe 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -200,7 +200,8 @@ def shell_parse_yuconfig( fn ):
     _exec_yuconfig_script( '' + E_YUCFG, context )
 #   -- configuration for concrete source file
     _exec_yuconfig_script( os.path.splitext( fn )[ 0 ] + E_YUCFG, context )
-    cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )}
+    cfg = { k: val for k, val in list( context.items()) if isinstance( val, yuconfig_types )
+            and k not in ( 'directory', 'dependency', 'pp_define' )}
     if isinstance( context[ 'directory' ], list ):
         cfg[ 'directory' ] = context[ 'directory' ]
     if isinstance( context[ 'dependency' ], list ):
-- 
2.43.0


From 8bf24915948a099d6d715d339cf25e344a303f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 44/58] fix: do not take a name that begins with a keyword for
 the keyword

---
 pp/yugen.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index fc8a00c..173ec23 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -859,6 +859,15 @@ E_PY = '.py'
 def _ord( sou, pos = 0 ):
     return ord( sou[ pos ]) if pos < len( sou ) else None
 
+#   ---------------------------------------------------------------------------
+def _is_mark( sou, mark ):
+    """
+    Check the source starts with the mark which is not a part of a longer name.
+    """
+#   ---------------
+    pos = len( mark )
+    return sou[ :pos ] == mark and _ord( sou, pos ) not in ps_LETTER | ps_FIGURE
+
 #   ---------------------------------------------------------------------------
 def _unq( st ):
     if isinstance( st, str ):
@@ -1099,7 +1108,7 @@ def ps_set( sou, depth = 0 ):
     """
 #   ---------------
 #   ---- ($set
-    if sou[ :l_SET ] != ps_SET:
+    if not _is_mark( sou, ps_SET ):
         return ( sou, None )
 
 #   ---- gap
@@ -1125,7 +1134,7 @@ def ps_let( sou, depth = 0 ):
     """
 #   ---------------
 #   ---- ($let
-    if sou[ :l_LET ] != ps_LET:
+    if not _is_mark( sou, ps_LET ):
         return ( sou, None )
 
 #   ---- gap
@@ -1199,7 +1208,7 @@ def ps_import( sou, depth = 0 ):
     """
 #   ---------------
 #   ---- ($import
-    if sou[ :l_IMPORT ] != ps_IMPORT:
+    if not _is_mark( sou, ps_IMPORT ):
         return ( sou, None )
 
 #   ---- gap
@@ -1250,7 +1259,7 @@ def ps_macro( sou, depth = 0 ):
     """
 #   ---------------
 #   ---- ($macro
-    if sou[ :l_MACRO ] != ps_MACRO:
+    if not _is_mark( sou, ps_MACRO ):
         return ( sou, None )
 
 #   ---- gap
@@ -1300,7 +1309,7 @@ def ps_emit( sou, depth = 0 ):
     """
 #   ---------------
 #   ---- ($emit
-    if sou[ :l_EMIT ] != ps_EMIT:
+    if not _is_mark( sou, ps_EMIT ):
         return ( sou, None )
 
 #   ---- gap
@@ -1354,7 +1363,7 @@ def ps_application( sou, depth = 0 ):
         return ps_code( sou, depth + 1 )
 
 #   ---- ($emit
-    if sou[ :l_EMIT ] == ps_EMIT:
+    if _is_mark( sou, ps_EMIT ):
         return ps_emit( sou, depth + 1 )
 
 #   ---- (${}
-- 
2.43.0


From e158e0218674294cdb2b589c12422c8f53202599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 45/58] fix: let __PASSAGE__ wait for its list inside a
 function

---
 pp/yugen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 173ec23..9bda303 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3323,6 +3323,10 @@ def yueval( node, env = ENV(), depth = 0 ):
                                 + node.fn.atom.loc())
 
                             if not isinstance( node.args[ 0 ], list ):
+                                if not _is_term( node.args ) and not _detect_deadlock( node.args ):
+#                                   -- irreducible
+                                    return node
+
                                 raise TypeError( '%s: list expected' % ( _callee())
                                 + node.fn.atom.loc())
 
-- 
2.43.0


From e6fb05d7e634db2a18bd4f17c93d4f508590ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 46/58] fix: let reduce wait for its function and list inside a
 function

---
 pp/yugen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 9bda303..f83198d 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3299,13 +3299,17 @@ def yueval( node, env = ENV(), depth = 0 ):
                             return node
 
                         if node.fn.atom == 'reduce':
-                            if len( node.args ) < 2 or not isinstance( node.args[ 0 ], BUILTIN ):
+                            if len( node.args ) < 2 or not isinstance( node.args[ 0 ], ( BUILTIN, VAR )):
                                 raise TypeError( '%s: unexpected arguments of "reduce"' % ( _callee())
                                 + node.fn.atom.loc())
 
-                            if _is_term( node.args[ 1: ]):
+                            if isinstance( node.args[ 0 ], BUILTIN ) and _is_term( node.args[ 1: ]):
                                 return node.fn.fn( node.args[ 0 ].fn, *node.args[ 1: ])
 
+                            if not _detect_deadlock( node.args[ 1: ]):
+#                               -- irreducible
+                                return node
+
                         if node.fn.atom == 'isatom':
                             if len( node.args ) != 1:
                                 raise TypeError( '%s: only one argument expected' % ( _callee())
-- 
2.43.0


From dbe901684b2420d08b28d818e33166ea98eae5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 47/58] fix: start with the first pass whatever was processed
 before

---
 pp/yup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pp/yup.py b/pp/yup.py
index d4a11fe..1ccf8e5 100644
--- a/pp/yup.py
+++ b/pp/yup.py
@@ -258,6 +258,7 @@ def _pp_configure( cfg ):
     config.pp_define = cfg.get( 'pp_define', [])
     config.warn_unbound_application = cfg.get( 'warn_unbound_application', WARN_UNBOUND_APPLICATION )
     config.directory = cfg.get( 'directory', [])
+    config.passage = 0
     shell.quiet = cfg.get( 'quiet', QUIET )
     shell.type_output = cfg.get( 'type_output', TYPE_OUTPUT )
     shell.output_dir = cfg.get( 'output_dir', '' )
-- 
2.43.0


From 5f4e1e436f0050939e118c3d6c53c41e88c8f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 48/58] fix: escape the quotes inside a quoted string

---
 pp/yugen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index f83198d..52bd085 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -868,6 +868,11 @@ def _is_mark( sou, mark ):
     pos = len( mark )
     return sou[ :pos ] == mark and _ord( sou, pos ) not in ps_LETTER | ps_FIGURE
 
+#   ---------------------------------------------------------------------------
+def _q( val, mark ):
+    st = codecs.unicode_escape_encode( str( val ))[ 0 ].decode()
+    return STR( mark + st.replace( mark, '\\' + mark ) + mark )
+
 #   ---------------------------------------------------------------------------
 def _unq( st ):
     if isinstance( st, str ):
@@ -2832,8 +2837,8 @@ builtin.update({
     'or': operator.or_,
     'ord': lambda val : ord( val ) if isinstance( val, STR ) else ord( str( val )),
     'print': lambda *l : _print( ' '.join(( _unq( x ) if isinstance( x, STR ) else str( x )) for x in l )),
-    'q': lambda val : STR( '"%s"' % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
-    'qs': lambda val : STR( "'%s'" % codecs.unicode_escape_encode( str( val ))[ 0 ].decode()),
+    'q': lambda val : _q( val, '"' ),
+    'qs': lambda val : _q( val, "'" ),
     'range': lambda *l : LIST( list( range( *l ))),
     'repeat': operator.mul,
     'reversed': lambda val : val[ ::-1 ],
-- 
2.43.0


From 9b65b333adc8e666b71caf54d0ffa8fe4e3a0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 49/58] fix: do not count the quotes of a computed string

---
 pp/yugen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 52bd085..320bc63 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -2848,7 +2848,7 @@ builtin.update({
     'round': round,
     'SPACE': lambda : STEADY_SPACE,
     'str': str,
-    'strlen': lambda val : len( _unq( val ) if isinstance( val, STR ) else str( val )),
+    'strlen': lambda val : len( _unq( val ) if isinstance( val, STR ) or str( val )[ :1 ] in ( '"', "'" ) else str( val )),
     'sum': sum,
     'TAB': lambda : STEADY_TAB,
     'typeof': lambda val : ATOM( val.__class__.__name__ ),
-- 
2.43.0


From 355ddd0250ad5589405d97825c6083360796e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 50/58] fix: end a hexadecimal escape of a quoted string before
 a hexadecimal digit

---
 pp/yugen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pp/yugen.py b/pp/yugen.py
index 320bc63..00f62f3 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -871,6 +871,9 @@ def _is_mark( sou, mark ):
 #   ---------------------------------------------------------------------------
 def _q( val, mark ):
     st = codecs.unicode_escape_encode( str( val ))[ 0 ].decode()
+#   -- any number of hexadecimal digits is allowed in C
+    st = re.sub( r'(\\\\)|\\x([0-9a-f]{2})(?=[0-9a-fA-F])'
+    , lambda m : m.group( 1 ) or '\\%03o' % ( int( m.group( 2 ), 16 )), st )
     return STR( mark + st.replace( mark, '\\' + mark ) + mark )
 
 #   ---------------------------------------------------------------------------
-- 
2.43.0


From b6ceed628a9efd6779e468e1e0499316b1e78df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 51/58] fix: unquote strings of Python with a prefix

---
 pp/yugen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 00f62f3..ba2e7b3 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -880,7 +880,9 @@ def _q( val, mark ):
 def _unq( st ):
     if isinstance( st, str ):
         try:
-            if st.startswith( '"' ) or st.startswith( "'" ):
+#           -- string of Python can have a prefix
+            head = st.lstrip( 'uUrR' ) if yushell.output_python else st
+            if head.startswith( '"' ) or head.startswith( "'" ):
                 result = str( literal_eval( st ))
                 if isinstance( st, STR ):
                     return STR( result, st.input_file, st.pos )
-- 
2.43.0


From d0576c76e7514cdb9566a987e81a8947ace13d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 52/58] fix: coro-quit makes a label of its own

---
 lib/coroutine.yu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/coroutine.yu b/lib/coroutine.yu
index be885d4..8aa2a86 100644
--- a/lib/coroutine.yu
+++ b/lib/coroutine.yu
@@ -102,6 +102,7 @@ enum {
 
 ($macro coro-quit ()($do ]
 	/* quit */
+	($set __label (L__($emit __label_iter inc)))
 	*co_p = &&($__label);
 
 	($__label):
-- 
2.43.0


From a32bc01b8af859d1b7de5c65a49889f743999146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 53/58] fix: the value of a comparison in an infix expression
 is a number, as that of a built-in function

---
 pp/yugen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index ba2e7b3..985f489 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -3371,7 +3371,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                         + node.fn.atom.loc())
 
                     val = node.fn.fn
-                    return str( val ) if isinstance( val, native_str ) else val
+                    return int( val ) if isinstance( val, bool ) else str( val ) if isinstance( val, native_str ) else val
 
 #   ---- APPLY -- int | float (subscripting)
                 elif isinstance( node.fn, int ) or isinstance( node.fn, float ):
@@ -3767,7 +3767,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                 try:
                     code = compile( node.tree, '', 'eval' )
                     val = eval( code, dict( globals(), **builtin ), node.env )                                        #pylint: disable=eval-used
-                    return str( val ) if isinstance( val, native_str ) else val
+                    return int( val ) if isinstance( val, bool ) else str( val ) if isinstance( val, native_str ) else val
 
                 except:
                     e_type, e, tb = sys.exc_info()
-- 
2.43.0


From 53ae8ca65b8d0c3d917b1d224cab3390a5ee7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 54/58] fix: the name of a file that is a number isn't taken
 for the key of a macro

---
 pp/yugen.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 985f489..0fa9197 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -225,13 +225,17 @@ def _split_lines( text ):
 def _loc_repr( x ):
     return LOC_REPR % ( repr( x )[ :ERR_SLICE ])
 
+#   ---------------------------------------------------------------------------
+#   -- prefix of a key of macro or eval import in yushell.source, a name of file can't begin with it
+INCLUSION = '\0'
+
 #   ---------------------------------------------------------------------------
 def _loc( input_file, pos, pointer = True ):
     result = ''
     decl, sou = yushell.source[ input_file ]
-    if input_file.isdigit():
+    if input_file.startswith( INCLUSION ):
 #       -- location is into macro or eval import
-        call = yushell.inclusion[ int( input_file )]
+        call = yushell.inclusion[ int( input_file[ len( INCLUSION ): ])]
         if call:
 #           -- call location
             result += _loc( call.input_file, call.pos, False )
@@ -965,7 +969,7 @@ def _import_eval( infix ):
         raise_( e_type, 'ps_import_eval: %s' % ( e ) + infix.loc(), tb )
 
     yushell.inclusion.append( None )
-    _import = str( len( yushell.inclusion ) - 1 )
+    _import = INCLUSION + str( len( yushell.inclusion ) - 1 )
     yushell.source[ _import ] = ( code, sou )
     return _import
 
@@ -3021,10 +3025,10 @@ class RESULT( str ):
     @classmethod
     def loc( cls, input_file, pos ):
         decl = yushell.source[ input_file ][ 0 ]
-        if input_file.isdigit():
+        if input_file.startswith( INCLUSION ):
             result = []
 #           -- location is into macro or eval import
-            call = yushell.inclusion[ int( input_file )]
+            call = yushell.inclusion[ int( input_file[ len( INCLUSION ): ])]
             if call:
 #               -- call location
                 result.extend( cls.loc( call.input_file, call.pos ))
@@ -3693,7 +3697,7 @@ def yueval( node, env = ENV(), depth = 0 ):
                         node.ast = '($' + node.ast + ')'
 
                 yushell.inclusion.append( node.call )
-                _macro = str( len( yushell.inclusion ) - 1 )
+                _macro = INCLUSION + str( len( yushell.inclusion ) - 1 )
                 yushell.source[ _macro ] = ( node.decl, node.ast )
                 node = yuparse( _macro )
                 if not node.ast:
-- 
2.43.0


From 839eb7f9f2fcaa48a55143ccd82a0c7b9b889add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 55/58] fix: a file of the same name as the input file can be
 imported

---
 pp/yugen.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pp/yugen.py b/pp/yugen.py
index 0fa9197..8538f68 100644
--- a/pp/yugen.py
+++ b/pp/yugen.py
@@ -910,17 +910,23 @@ def _unify_eol( st ):
 
 #   ---------------------------------------------------------------------------
 def _import_source( lib, once ):
-#   -- prevent libraries re-import
-    if once and lib in yushell.source:
-#       -- library has already been imported
-        return SOURCE_EMPTY
-
     lpath = lib
     if not os.path.isfile( lpath ):
         for d in yushell.directory:
             lpath = os.path.join( d, lib )
             if os.path.isfile( lpath ):
                 break
+    key = lib
+    if lib == yushell.input_file:
+        _input = yushell.source[ lib ][ 0 ]
+        if os.path.isfile( lpath ) and ( not _input or os.path.abspath( lpath ) != os.path.abspath( _input )):
+#           -- another file of the same name as input file
+            key = os.path.abspath( lpath )
+#   -- prevent libraries re-import
+    if once and key in yushell.source:
+#       -- library has already been imported
+        return SOURCE_EMPTY
+
     try:
         with open( lpath, 'r' ) as f:
             sou = _unify_eol( f.read())
@@ -928,8 +934,8 @@ def _import_source( lib, once ):
         e_type, e, tb = sys.exc_info()
         raise_( e_type, 'ps_import: %s' % ( e ) + lib.loc(), tb )
 
-    yushell.source[ lib ] = ( lpath, sou )
-    return lib
+    yushell.source[ key ] = ( lpath, sou )
+    return key
 
 #   ---------------------------------------------------------------------------
 def _import_python( name, script ):
-- 
2.43.0


From 2d1c0724e33b48b67edda7f17981732708b32383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 56/58] fix: the editor plugin reads browsing data under Python
 3

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index 8ba5961..f867d99 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -77,7 +77,7 @@ def open_file( fn ):
         l_files = len( file_data[ fn ][ 'files' ])
         dirs = [ os.path.dirname( fn )]
         file_data[ fn ][ 'paths' ] = [ '' ] * l_files
-        for i in xrange( l_files ):
+        for i in range( l_files ):
             search_file( fn, dirs, i )
 
         file_state[ fn ] = STATE_FRUIT
-- 
2.43.0


From 5913cf3e1408ab877fca88e310c2122d1e3e8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 57/58] fix: text before the first construct leads to its own
 place in the source

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index f867d99..b926943 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -235,7 +235,7 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
                 dirs = self.view.window().folders()
                 # search for original file in project directories
                 fn_to = search_file( fn_fruit, dirs, inx )
-                if ( i > 0 ) and ( browse[ i - 1 ][ 0 ] != pos_found ) and ( pos_to > 0 ):
+                if (( i == 0 ) or ( browse[ i - 1 ][ 0 ] != pos_found )) and ( pos_to >= 0 ):
                     # relative shift only in case of single jump
                     # and if origin is not ($macro)
                     pos_to += ( pos_fruit + delta - pos_found )
-- 
2.43.0


From 27d6990b3d5bd92cb2e8d7f3f9a1524073fddd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 58/58] fix: the way back from a source common to two generated
 files

---
 sublime_text/Data/Packages/yupp/yupp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sublime_text/Data/Packages/yupp/yupp.py b/sublime_text/Data/Packages/yupp/yupp.py
index b926943..26231a2 100644
--- a/sublime_text/Data/Packages/yupp/yupp.py
+++ b/sublime_text/Data/Packages/yupp/yupp.py
@@ -200,7 +200,7 @@ class GotoOriginCommand( sublime_plugin.TextCommand ):
 
         else:
             pos = self.view.sel()[ 0 ].begin()
-            if fn in file_jump:
+            if state == STATE_ORIGIN and fn in file_jump:
                 if pos in file_jump[ fn ]:
                     fn_to, pos_to = file_jump[ fn ][ pos ]
                     # jump to origin or back to fruit
-- 
2.43.0

