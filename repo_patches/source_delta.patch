From a46326c213c9ca6c7028efb16dee958a5092eb35 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 001/187] fix: getContextVerseDataRange() across two books
 looked in the first book for both parts

---
 BibleOrgSys/Internals/InternalBible.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..32e5231 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2335,8 +2335,10 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
             if endBBB == startBBB: # most common case
                 return self.books[startBBB].getContextVerseDataRange( startBCVReference, endBCVReference, strict=strict )
             else: # sometimes they can be different books
-                verseEntryList1, contextList1 = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,'999','999'), strict=strict )
-                verseEntryList2, _contextList2 = self.books[startBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
+                lastC = str( self.books[startBBB].getNumChapters() )
+                lastV = str( self.books[startBBB].getNumVerses( lastC ) )
+                verseEntryList1, contextList1 = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,lastC,lastV), strict=strict )
+                verseEntryList2, _contextList2 = self.books[endBBB].getContextVerseDataRange( (endBBB,'1','0'), endBCVReference, strict=strict )
                 return verseEntryList1+verseEntryList2, contextList1
         else:
             logging.warning( f"InternalBible.getContextVerseDataRange( {startBCVReference}, {endBCVReference}, {strict=} ): {self.name} doesn't have {startBBB}{'' if endBBB==startBBB else f' or {endBBB}'}" )
-- 
2.43.0


From ccae3ad91646c236904fc5fe73168c1b34dac64c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 002/187] fix: non-strict getContextVerseDataRange() hit a
 debug halt instead of returning what was found

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b1e1fb6..dabea42 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5283,7 +5283,6 @@ class InternalBibleBook:
                         else:
                             if not strict:
                                 logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}) for {self.workName} {self.BBB} failed at {strC}:{strV}")
-                                halt
                                 break # return what we've got
                             raise kerr
                     else: # we're only doing one chapter
-- 
2.43.0


From c8e046fa56a1690170c1cf4ac40da33a92d2d805 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 003/187] fix: findText() without the main text failed on every
 verse instead of searching the notes

---
 BibleOrgSys/Internals/InternalBible.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 32e5231..19067e6 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2555,17 +2555,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                                 origTextToBeSearched = ''
-                                if origTextToBeSearched != cleanText: # we must have extras -- we need to remove the main text
+                                if optionsDict['includeExtrasFlag'] and lineEntry.getExtras(): # we need to search the extras but not the main text
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Got extras" )
-                                    assert optionsDict['includeExtrasFlag']
-                                    origTextToBeSearched = ''
                                     for extra in lineEntry.getExtras():
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "extra", extra )
                                         extraStart = ''
                                         if optionsDict['includeMarkerTextFlag']:
                                             eTypeIndex = BOS_EXTRA_TYPES.index( extra.getType() )
                                             extraStart = '\\{} '.format( BOS_EXTRA_MARKERS[eTypeIndex] )
-                                        origTextToBeSearched += ' ' if origTextToBeSearched else '' + extraStart + extra.getText()
+                                        origTextToBeSearched += (' ' if origTextToBeSearched else '') + extraStart + extra.getText()
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Now", repr(origTextToBeSearched) )
                         if optionsDict['includeMarkerTextFlag']:
                             origTextToBeSearched = '\\{} {}'.format( marker, origTextToBeSearched )
-- 
2.43.0


From 5cc30c523bc5134cabf5f9eff9b7d561630e457b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 004/187] fix: a caseless findText() with a regex containing
 capitals never matched

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 19067e6..594b2e3 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2509,7 +2509,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if ourFindText.lower().startswith( 'regex:' ):
             optionsDict['regexFlag'] = True
             ourFindText = ourFindText[6:]
-            compiledFindText = re.compile( ourFindText )
+            compiledFindText = re.compile( ourFindText, re.IGNORECASE if optionsDict['caselessFlag'] else 0 )
         if optionsDict['ignoreDiacriticsFlag']: ourFindText = BibleOrgSysGlobals.removeAccents( ourFindText )
         if optionsDict['caselessFlag']: ourFindText = ourFindText.lower()
         searchLen = len( ourFindText )
-- 
2.43.0


From 10e2510a17e9fe81999ffa3634b0bf7e0c1b7c2a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 005/187] fix: findText() with a markerList failed on verse
 text ahead of the first paragraph marker

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 594b2e3..e102eaf 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2526,7 +2526,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 #self.loadBookIfNecessary( BBB )
                 resultSummaryDict['searchedBookList'].append( BBB )
                 C, V = '-1', '-1' # So first/id line starts at -1:0
-                marker = None
+                marker = lastParagraphMarker = None
                 for lineEntry in bookObject:
                     if marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                         lastParagraphMarker = marker
-- 
2.43.0


From 9bfd484a9f8cf3354ac8195eeb78e6f71e458848 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 006/187] fix: the character and word checks skipped all verse
 text (v~ and p~ lines)

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index dabea42..8e3a1d0 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4124,7 +4124,7 @@ class InternalBibleBook:
                 characterErrors.append( lineLocationSpace + _("Trailing space in {!r}").format( adjText ) )
                 self.addPriorityError( 5, C, V, _("Trailing space in text line") )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lineLocationSpace + _("Trailing space in {} {!r}").format( marker, adjText ) )
-            if BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
+            if marker in ('v~','p~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
                 for char in adjText:
                     lcChar = char.lower()
 
@@ -4575,7 +4575,7 @@ class InternalBibleBook:
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
 
-            if text and BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker): # process this main text
+            if text and (marker in ('v~','p~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker)): # process this main text
                 lastTextWordTuple = countWordsForCheck( marker, cleanText, lastTextWordTuple )
 
             extras = entry.getExtras()
-- 
2.43.0


From 1a9efc0c98e4ca79911d2ea2fe7dd554f0ade1e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 007/187] fix: words marked with \w attributes were counted
 twice by the character and word checks

---
 BibleOrgSys/Internals/InternalBibleBook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 8e3a1d0..e29b5a4 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4226,7 +4226,7 @@ class InternalBibleBook:
                     #    cleanExtraText = cleanExtraText.replace( sign, '' )
                     #for marker in ['\\xo*','\\xo ','\\xt*','\\xt ','\\xdc*','\\xdc ','\\fr*','\\fr ','\\ft*','\\ft ','\\fq*','\\fq ','\\fv*','\\fv ','\\fk*','\\fk ',] + BibleOrgSysGlobals.internal_SFMs_to_remove:
                     #    cleanExtraText = cleanExtraText.replace( marker, '' )
-                    if cleanExtraText: countCharacters( cleanExtraText )
+                    if cleanExtraText and extraType!='ww': countCharacters( cleanExtraText ) # 'ww' words are already in the text
 
         # Add up the totals
         if (characterErrors or simpleCharacterCounts or unicodeCharacterCounts or letterCounts or punctuationCounts) and 'Characters' not in self.checkResultsDictionary:
@@ -4595,7 +4595,8 @@ class InternalBibleBook:
                     #    cleanExtraText = cleanExtraText.replace( sign, '' )
                     #for marker in ('\\xo*','\\xo ','\\xt*','\\xt ','\\xdc*','\\xdc ','\\fr*','\\fr ','\\ft*','\\ft ','\\fq*','\\fq ','\\fv*','\\fv ','\\fk*','\\fk '):
                     #    cleanExtraText = cleanExtraText.replace( marker, '' )
-                    countWordsForCheck( extraType, cleanExtraText )
+                    if extraType not in ('fig','ww'): # No useful words in those two extra types (same as for discover)
+                        countWordsForCheck( extraType, cleanExtraText )
 
         # Add up the totals
         if (wordErrors or wordCounts or caseInsensitiveWordCounts) and 'Words' not in self.checkResultsDictionary: self.checkResultsDictionary['Words'] = {} # So we hopefully get the errors first
-- 
2.43.0


From 78d82a8a30b65696325e3fa2c8b4171f6f6b88bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 008/187] fix: comparing InternalBibleExtra, ExtraList or Entry
 objects raised AttributeError because of __slots__

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f0bc06a..4aaa64f 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -413,7 +413,8 @@ class InternalBibleExtra:
 
 
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): # (We have no __dict__ because we use __slots__)
+            return (self.myType,self.index,self.noteText,self.cleanNoteText) == (other.myType,other.index,other.noteText,other.cleanNoteText)
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -492,7 +493,7 @@ class InternalBibleExtraList:
 
     def __len__( self ): return len( self.data )
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return self.data == other.data # (We have no __dict__ because we use __slots__)
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -645,7 +646,8 @@ class InternalBibleEntry:
         #for someKey, someItem in sorted( other.__dict__.items() ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'other', someKey, repr(someItem) )
         #halt
-        return isinstance( other, self.__class__ ) and self.__dict__ == other.__dict__
+        return isinstance( other, self.__class__ ) \
+            and all( getattr( self, name ) == getattr( other, name ) for name in InternalBibleEntry.__slots__ ) # (We have no __dict__)
     def __ne__( self, other ):
         return not self.__eq__( other )
 
-- 
2.43.0


From 615f988e802263254203c32ba44a4ab711f065eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 009/187] fix: adding two InternalBibleEntryLists with +
 changed the left-hand one

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 4aaa64f..08867d6 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -873,9 +873,18 @@ class InternalBibleEntryList:
         So we can use Python + operator to add lists (e.g., to combine verses)
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
-        self.data.extend( listToAppend )
-        return self
+        result = InternalBibleEntryList()
+        result.data = self.data + listToAppend.data # Don't change either of the given lists
+        return result
     # end of InternalBibleEntryList.__add__
+    def __iadd__( self, listToAppend ):
+        """
+        So += is still efficient (and extends the left-hand list)
+        """
+        assert isinstance( listToAppend, InternalBibleEntryList ), f"__iadd__ {type(listToAppend)=} {listToAppend=}"
+        self.data.extend( listToAppend.data )
+        return self
+    # end of InternalBibleEntryList.__iadd__
 
 
     def contains( self, searchMarker, maxLines=None ):
-- 
2.43.0


From ad99d6b49136e61445bc3523ee4e80a6821fc50b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 010/187] fix: reloadBook() did not reload a book that was
 already loaded

---
 BibleOrgSys/Internals/InternalBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index e102eaf..3e7f42c 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -414,6 +414,7 @@ class InternalBible:
         fnPrint( DEBUGGING_THIS_MODULE, f"InternalBible.reloadBook( {BBB} )" )
 
         #if BBB not in self.books and BBB not in self.triedLoadingBook:
+        self.bookNeedsReloading[BBB] = True # else loadBook() does nothing if the book is already loaded
         try: self.loadBook( BBB ) # Some types of Bibles have this function (so an entire Bible doesn't have to be loaded at startup)
         except AttributeError: logging.info( "No function to load individual Bible book: {}".format( BBB ) ) # Ignore errors
         except FileNotFoundError: logging.info( "Unable to find and load individual Bible book: {}".format( BBB ) ) # Ignore errors
-- 
2.43.0


From 5a64811566f0d5d8033b67ff2acc0d4cd8e93f3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 011/187] fix: reprocessing a book added the former totals into
 the new aggregated discovery results

---
 BibleOrgSys/Internals/InternalBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 3e7f42c..fb408bb 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -440,6 +440,7 @@ class InternalBible:
         if 'discoveryResults' in self.__dict__: # need to update them
             # Need to double-check that this doesn't cause any double-ups …XXXXXXXXXXXXXXXXXXXXXX
             self.discoveryResults[BBB] = self.books[BBB]._discover()
+            self.discoveryResults.pop( 'ALL', None ) # else the former totals would be added in as if they were a book
             self.__aggregateDiscoveryResults()
     # end of InternalBible.reProcessBook
 
-- 
2.43.0


From 205a72350a9520be7e6fe76b2feb913777843ca0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 012/187] fix: discovery counted no book as Old Testament, New
 Testament or Deuterocanon

---
 BibleOrgSys/Internals/InternalBible.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index fb408bb..86f976c 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1301,7 +1301,9 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if BibleOrgSysGlobals.debugFlag: assert 'ALL' not in self.discoveryResults
         for BBB in self.discoveryResults:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "discoveryResults for", BBB, len(self.discoveryResults[BBB]), self.discoveryResults[BBB] )
-            isOT = isNT = isDC = False
+            isOT = BBB in BibleOrgSysGlobals.loadedBibleBooksCodes and BibleOrgSysGlobals.loadedBibleBooksCodes.isOldTestament_NR( BBB )
+            isNT = BBB in BibleOrgSysGlobals.loadedBibleBooksCodes and BibleOrgSysGlobals.loadedBibleBooksCodes.isNewTestament_NR( BBB )
+            isDC = BBB in BibleOrgSysGlobals.loadedBibleBooksCodes and BibleOrgSysGlobals.loadedBibleBooksCodes.isDeuterocanon_NR( BBB )
             if isOT:
                 isOT = True
                 if 'OTBookCount' not in aggregateResults: aggregateResults['OTBookCount'], aggregateResults['OTBookCodes'] = 1, [BBB]
-- 
2.43.0


From eb04c3c00b6de154caabcfb9ab78303545eeccb6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 013/187] fix: toHTML5 failed when the output folder already
 existed

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..7f57971 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2061,7 +2061,7 @@ class BibleWriter( InternalBible ):
         if not self.doneSetupGeneric: self.__setupWriter()
         if not outputFolderpath: outputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( 'BOS_HTML5_Export/' )
         WEBoutputFolder = os.path.join( outputFolderpath, 'Website/' )
-        if not os.access( outputFolderpath, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
+        if not os.access( WEBoutputFolder, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
 
         if not controlDict:
             controlDict, defaultControlFilename = {}, "To_HTML5_controls.txt"
-- 
2.43.0


From 0cc3a13fce3d4e0e4d7fa61a37afca2d294b660b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 014/187] fix: BibleDoor section index failed on verse numbers
 like 6b

---
 BibleOrgSys/BibleWriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7f57971..ed521d8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -109,7 +109,7 @@ from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
 from BibleOrgSys.InputOutput import ControlFiles
 from BibleOrgSys.InputOutput.MLWriter import MLWriter
-from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_NESTING_MARKERS, BOS_NESTING_MARKERS, InternalBibleExtraList
+from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_NESTING_MARKERS, BOS_NESTING_MARKERS, InternalBibleExtraList, getLeadingInt
 from BibleOrgSys.Internals.InternalBible import InternalBible
 from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
 from BibleOrgSys.Reference.BibleReferences import BibleReferenceList
@@ -2808,8 +2808,8 @@ class BibleWriter( InternalBible ):
             for startC,startV,endC,endV,fileOffset,length in bookIndexList: # Convert strings to integers for the JSON index
                 if startC=='I': startC = -1
                 if endC=='I': endC = -1
-                intStartC, intStartV = int( startC ), int( startV )
-                intEndC, intEndV = int( endC ), int( endV )
+                intStartC, intStartV = int( startC ), getLeadingInt( startV ) # Verse could be 6b
+                intEndC, intEndV = int( endC ), getLeadingInt( endV )
                 if intEndC==intStartC: newBookIndexList.append( (intStartC,intStartV, fileOffset,length, intEndV) )
                 else: newBookIndexList.append( (intStartC,intStartV, fileOffset,length, intEndV,intEndC) )
             if C != 'I': # Check the index list
-- 
2.43.0


From d1834ac7041217433e7bcf1bad8ce17c90cc3254 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 015/187] fix: a remark after a verse bridge made the exporters
 fail and moved the verse number on

---
 BibleOrgSys/BibleWriter.py              | 32 ++++++++++++-------------
 BibleOrgSys/Formats/OpenSongXMLBible.py |  2 +-
 BibleOrgSys/Formats/USXXMLBible.py      |  2 +-
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index ed521d8..e5c85b8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -586,7 +586,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C=='-1': V = str( int(V) + 1 )
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
@@ -1676,7 +1676,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C=='-1': V = str( int(V) + 1 )
 
                     if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                         ignoredMarkers.add( marker )
@@ -2319,7 +2319,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
@@ -2682,7 +2682,7 @@ class BibleWriter( InternalBible ):
                 or C == 'I': # This second part also copes with misuse of
                     if self.doExtraChecking:
                         assert C=='I' or pseudoMarker=='rem' or pseudoMarker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='I': V = str( int(V) + 1 )
                     lastV = V
                 if pseudoMarker in ('id','ide','h','toc1','toc2','toc3','rem','ie'): continue # don't need these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorText processing {!r} {!r} {}".format( self.abbreviation, pseudoMarker, fullText[:60]+('…' if len(fullText)>60 else '') ) )
@@ -3288,7 +3288,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
@@ -4153,7 +4153,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4660,7 +4660,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5331,7 +5331,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -5997,7 +5997,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6197,7 +6197,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6791,7 +6791,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", haveOpenIntro, haveOpenOutline, haveOpenMajorSection, haveOpenSection, haveOpenSubsection, needChapterEID, haveOpenParagraph, haveOpenVsID, haveOpenLG, haveOpenL )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, toSwordGlobals['idStack'] )
@@ -7244,7 +7244,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7415,7 +7415,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7948,7 +7948,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9169,7 +9169,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 )
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9611,7 +9611,7 @@ class BibleWriter( InternalBible ):
                         if marker in USFM_PRECHAPTER_MARKERS:
                             if self.doExtraChecking:
                                 assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                            V = str( int(V) + 1 )
+                            if C=='-1': V = str( int(V) + 1 )
 
                         if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                             ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 1089419..f5ed1b5 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -257,7 +257,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             if marker in USFM_PRECHAPTER_MARKERS:
                 if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C=='-1': V = str( int(V) + 1 )
 
             if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                 ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..cbd1aff 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -937,7 +937,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
             if marker in USFM_PRECHAPTER_MARKERS:
                 if self.doExtraChecking:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C=='-1': V = str( int(V) + 1 )
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             # if BBB=='RUT': vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
             #     f"{BBB} {C}:{V} {marker}({originalMarker})='{text}'{'+extras' if extras else ''} mCT={getMarkerContentType} hOP={haveOpenPara} pJO={paraJustOpened} hOV={haveOpenVerse} nCV={needToCloseVerse}" )
-- 
2.43.0


From a5324c5897d30c2a1f891ea78b265ae274ab4cd2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 016/187] fix: re-exporting USFM2 to the same folder packed the
 earlier archives into the zip

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index e5c85b8..a0d4924 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -763,7 +763,7 @@ class BibleWriter( InternalBible ):
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping USFM2 files…" )
         zf = zipfile.ZipFile( os.path.join( outputFolderpath, 'AllUSFM2Files.zip' ), 'w', compression=zipfile.ZIP_DEFLATED )
         for filename in os.listdir( outputFolderpath ):
-            if not filename.endswith( '.zip' ):
+            if filename.endswith( '.usfm' ):
                 filepath = os.path.join( outputFolderpath, filename )
                 zf.write( filepath, filename ) # Save in the archive without the path
         zf.close()
-- 
2.43.0


From e97d89a8f6792da39f5d92934796cab1da5eb538 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 017/187] fix: toUSFM3 added the usfm version to the first book
 only, and twice where it followed ide

---
 BibleOrgSys/BibleWriter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index a0d4924..a8aa232 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -808,11 +808,11 @@ class BibleWriter( InternalBible ):
         #assert controlDict and isinstance( controlDict, dict )
 
         # ignoredMarkers = set()
-        addedUSFMversionField = False
 
         # Adjust the extracted outputs
         for BBB,bookObject in self.books.items():
             internalBibleBookData = bookObject._processedLines
+            addedUSFMversionField = internalBibleBookData.contains( 'usfm', 8 ) is not None # if it's already in the file, don't add another one
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\ninternalBibleBookData", internalBibleBookData[:50] ); halt
             USFMAbbreviation = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( BBB )
             USFMNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMNumStr( BBB )
@@ -830,8 +830,9 @@ class BibleWriter( InternalBible ):
             # Prepend any important missing (header/title) fields
             if internalBibleBookData.contains( 'id', 1 ) is None:
                 bookUSFM += '\\id {} — BibleOrgSys USFM3 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
-                bookUSFM += '\n\\usfm 3.0'
-                addedUSFMversionField = True
+                if not addedUSFMversionField:
+                    bookUSFM += '\n\\usfm 3.0'
+                    addedUSFMversionField = True
                 if internalBibleBookData.contains( 'h', 8 ) is None:
                     try:
                         h = self.suppliedMetadata['File'][BBB+'ShortName']
@@ -855,8 +856,6 @@ class BibleWriter( InternalBible ):
                 if pseudoMarker in ('c#','vp#',):
                     # ignoredMarkers.add( pseudoMarker )
                     continue
-                if pseudoMarker == 'usfm': # It was already in the file
-                    addedUSFMversionField = True # Well, actually it will be added further down!
                 if pseudoMarker not in ('id','usfm') and not addedUSFMversionField:
                     bookUSFM += '\n\\usfm 3.0'
                     addedUSFMversionField = True
-- 
2.43.0


From a4d36178636f3abd9822fe58ffce8215f4040637 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 018/187] fix: removing verse bridges lost the verse numbers of
 a bridge at the end of a book

---
 BibleOrgSys/BibleWriter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index a8aa232..d856920 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -737,6 +737,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The last verse of the book was a bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
@@ -909,6 +912,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The last verse of the book was a bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
-- 
2.43.0


From eaae687c42973d7d0b3e06de94d8cbad96d7a590 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 019/187] fix: a cl line ahead of the first chapter was
 exported to USFM and ESFM with the internal marker

---
 BibleOrgSys/BibleWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index d856920..266035f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -685,6 +685,7 @@ class BibleWriter( InternalBible ):
                     #bookUSFM += '\\id {} — BibleOrgSys USFM2 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
                 if '¬' in pseudoMarker or pseudoMarker in BOS_CUSTOM_NESTING_MARKERS or pseudoMarker=='v=':
                     continue # Just ignore added markers — not needed here
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # the one before the first chapter
                 if pseudoMarker in ('c#','vp#',):
                     ignoredMarkers.add( pseudoMarker )
                     continue
@@ -856,6 +857,7 @@ class BibleWriter( InternalBible ):
                     #bookUSFM += '\\id {} — BibleOrgSys USFM3 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
                 if '¬' in pseudoMarker or pseudoMarker in BOS_CUSTOM_NESTING_MARKERS or pseudoMarker=='v=':
                     continue # Just ignore added markers — not needed here
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # the one before the first chapter
                 if pseudoMarker in ('c#','vp#',):
                     # ignoredMarkers.add( pseudoMarker )
                     continue
@@ -1039,6 +1041,7 @@ class BibleWriter( InternalBible ):
                                     if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: halt
                         ESFMLine = ' ' * indentLevel * indentSize
 
+                        if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # the one before the first chapter
                         if pseudoMarker in ('c#','vp#',):
                             ignoredMarkers.add( pseudoMarker )
                             continue
-- 
2.43.0


From 9a12eccf6ee55b842dde1c44d2a4497509ef3bf2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 020/187] fix: write MLWriter.escape_characters_with_extras so
 that toUSXXML does not stop at a quote or ampersand on a line with a note

---
 BibleOrgSys/InputOutput/MLWriter.py | 33 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..22c4434 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -47,7 +47,7 @@ if __name__ == '__main__':
         sys.path.insert( 0, aboveAboveFolderpath )
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtraList
+from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtra, InternalBibleExtraList
 
 
 LAST_MODIFIED_DATE = '2022-11-22' # by RJH
@@ -324,20 +324,23 @@ class MLWriter:
         if not extras: # We can use the simpler function
             return MLWriter.escape_characters( rawTextString, checkFirst ), extras
 
-        # Ok, we've got extras so we need to check more carefully
-        # Precounting might speed things up ??? (not profile tested yet)
-        escape_count = sum([rawTextString.count(c) for c in ESCAPE_MAP])
-        if escape_count == 0:
-            return MLWriter.escape_characters( rawTextString, checkFirst ), extras
-        else: dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{escape_count=} {[rawTextString.count(c) for c in ESCAPE_MAP]} {rawTextString=}")
-
-        # Ok, we've got chars needing to be escaped and we have extras so need to work through char by char
-        char_strings, adjExtras = [], InternalBibleExtraList()
-        for ix,char in enumerate(rawTextString):
-            if char in ESCAPE_MAP:
-                dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{ix=} {char=}")
-        dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{rawTextString=} {char_strings=} {extras=} {adjExtras=}")
-        raise Exception("MLWriter: escape characters with extras NOT WRITTEN YET")
+        # Ok, we've got extras so we need to remember where each character of the raw string ended up
+        char_strings, adjIndexes, adjLength = [], [], 0
+        for char in rawTextString:
+            adjIndexes.append( adjLength )
+            escaped_char = ESCAPE_MAP.get( char, char )
+            char_strings.append( escaped_char )
+            adjLength += len( escaped_char )
+
+        adjExtras = InternalBibleExtraList()
+        for extra in extras:
+            index, extraText = extra.getIndex(), extra.getText()
+            adjIndex = adjIndexes[index] if index < len(adjIndexes) else index - len(rawTextString) + adjLength
+            if extra.getType() == 'ww': # Only escape the word (because the quotes around the attributes are needed)
+                word, pipe, attributes = extraText.partition( '|' )
+                extraText = f'{MLWriter.escape_characters( word, checkFirst )}{pipe}{attributes}'
+            else: extraText = MLWriter.escape_characters( extraText, checkFirst )
+            adjExtras.append( InternalBibleExtra( extra.getType(), adjIndex, extraText, extra.getCleanText(), 'escaped' ) )
         return ''.join(char_strings), adjExtras
     # end of MLWriter.escape_characters_with_extras static function
 
-- 
2.43.0


From f16144750fbcf2ae3167334963b3bca412b3a7ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 021/187] fix: toUSXXML: recreate the w field for any word
 attributes instead of writing them as text

---
 BibleOrgSys/Formats/USXXMLBible.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index cbd1aff..4fef4a8 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -506,8 +506,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
         """
         Writes a book to the filesFolder.
         """
-        attributeStringStarts = set() # Set of start of string of first /ww attributes (from /w after |)
-
         def _handleInternalTextMarkersForUSX( originalText:str ) -> str:
             """
             Handles character formatting markers within the originalText.
@@ -551,9 +549,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 endCharMarker = f'\\+{charMarker}*'
                 if endCharMarker in adjText:
                     adjText = adjText.replace( endCharMarker, '</char>' )
-                if charMarker == 'w': # We may have some cleaning up to do
-                    for attributeStringStart in attributeStringStarts:
-                        adjText = adjText.replace( f'<char style="w">{attributeStringStart}=', f'<char style="w" {attributeStringStart}=') # The end marker is already in there
             if '\\z' in adjText:
                 # Handle custom (character) markers
                 while True:
@@ -861,22 +856,19 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                         extra = f"\\vp {extraText}\\vp*" # Will be handled later
                     elif extraType == 'ww':
                         # NOTE: The insert point for \ww fields is at the end of the previous \w field (immediately before the \w*)
-                        #       However, if it's only a Strongs number, the \w field was removed completely
+                        #       (but the \w field markers themselves were removed completely)
                         # if BBB == 'RUT': print( f"{BBB} {C} {V} ww is {extra} with '{adjText}'"); halt
                         ixPipe = extraText.find('|')
                         assert ixPipe != -1
-                        if extraText.count('=')==1 and '|strong="' in extraText: # e.g., 'And|strong="H1121"'
-                            # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Got ww extra with only Strongs: {adjText=} {adjIndex=} {ixPipe=}" )
-                            # We need to recreate the \w (or \w+) field that was removed, e.g., <char style="w" strong="H1121">And</char>
-                            # But note that the word is already in the text (and the index points to the end of it)
-                            # Also note that ixPipe is actually the word length
-                            extra = f'<char style="w" {extraText[ixPipe+1:]}>{extraText[:ixPipe]}</char>'
-                            adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
-                            offset -= len(extra) - ixPipe
-                            extra = None # to subvert normal processing at bottom of this loop
-                        else: # Assume a remaining \w field and add the extra info to it
-                            extra = f'{extraText[ixPipe+1:]}>'
-                            attributeStringStarts.add(extra[:6])
+                        # We need to recreate the \w (or \w+) field that was removed, e.g., <char style="w" strong="H1121">And</char>
+                        # But note that the word is already in the text (and the index points to the end of it)
+                        # Also note that ixPipe is actually the word length
+                        attributes = extraText[ixPipe+1:]
+                        if '=' not in attributes: attributes = f'lemma="{attributes}"' # It's the default attribute
+                        extra = f'<char style="w" {attributes}>{extraText[:ixPipe]}</char>'
+                        adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
+                        offset -= len(extra) - ixPipe
+                        extra = None # to subvert normal processing at bottom of this loop
                     else:
                         dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"toUSXXML._handleNotesAndExtras: Unexpected {extraType=}" )
                         extra = f"--UNKNOWN {extraType} EXTRA--"
-- 
2.43.0


From eb8be42947764ae1c0c362c4c28ccedc2923c9f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 022/187] fix: toUSFXXML: close paragraphs with the tag that
 was opened

---
 BibleOrgSys/BibleWriter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 266035f..311fec8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4660,6 +4660,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             xw.writeLineOpen( 'book', ('id',USFXAbbrev) )
             haveOpenPara = paraJustOpened = False
+            openParaMarker = None
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
@@ -4677,7 +4678,7 @@ class BibleWriter( InternalBible ):
                     if haveOpenPara: # This should never happen coz the ID line should have been the first line in the file
                         logger.error( "toUSFXXML: Book {}{} has a id line inside an open paragraph: {!r}".format( BBB, " ({})".format(USFXAbbrev) if USFXAbbrev!=BBB else '', adjText ) )
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( openParaMarker )
                         haveOpenPara = False
                     adjTxLen = len( adjText )
                     if adjTxLen<3 or (adjTxLen>3 and adjText[3]!=' '): # Doesn't seem to have a standard BBB at the beginning of the ID line
@@ -4691,7 +4692,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'c':
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( openParaMarker )
                         haveOpenPara = False
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, 'C', repr(text), repr(adjText) )
                     C, V = text, '0' # not adjText!
@@ -4725,7 +4726,7 @@ class BibleWriter( InternalBible ):
                 elif getMarkerContentType == 'N': # N = never, e.g., b, nb
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( openParaMarker )
                         haveOpenPara = False
                     if adjText:
                         logger.error( "toUSFXXML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
@@ -4733,24 +4734,25 @@ class BibleWriter( InternalBible ):
                 elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( openParaMarker )
                         haveOpenPara = False
                     if not adjText: xw.writeLineOpen( originalMarker )
                     else:
                         xw.writeLineOpenText( originalMarker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
                     haveOpenPara = paraJustOpened = True
+                    openParaMarker = originalMarker
                 else:
                     #assert getMarkerContentType == 'A' # A = always, e.g.,  ide, mt, h, s, ip, etc.
                     if getMarkerContentType != 'A':
                         logger.debug( "BibleWriter.toUSFXXML: ToProgrammer — should be 'A': {!r} is {!r} Why?".format( marker, getMarkerContentType ) )
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( openParaMarker )
                         haveOpenPara = False
                     xw.writeLineOpenClose( marker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
             if haveOpenPara:
                 xw.removeFinalNewline( suppressFollowingIndent=True )
-                xw.writeLineClose( 'p' )
+                xw.writeLineClose( openParaMarker )
             xw.writeLineClose( 'book' )
         # end of toUSFXXML.writeUSFXBook
 
-- 
2.43.0


From 935319b1a345f3cd5e1723f0d462b4abc5de5ded Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 023/187] fix: USX and USFX exports: keep nb, pmo and similar
 paragraphs open for the verses in them

---
 BibleOrgSys/BibleWriter.py         | 38 ++++++++++++++++--------------
 BibleOrgSys/Formats/USXXMLBible.py |  5 ++--
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 311fec8..5908702 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4220,15 +4220,8 @@ class BibleWriter( InternalBible ):
                     if not adjText: logger.warning( "toUSX2XML: Missing text for {}".format( marker ) ); continue
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineText( handleInternalTextMarkersForUSX2(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
-                elif getMarkerContentType == 'N': # N = never, e.g., b, nb
-                    if haveOpenPara:
-                        xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'para' )
-                        haveOpenPara = False
-                    if adjText:
-                        logger.error( "toUSX2XML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
-                    xw.writeLineOpenSelfclose( 'para', ('style',marker) )
-                elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
+                elif (getMarkerContentType == 'S' # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
+                or marker == 'nb' or marker in USFM_BIBLE_PARAGRAPH_MARKERS): # e.g., pmo,qr -- verses might follow
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( 'para' )
@@ -4237,6 +4230,14 @@ class BibleWriter( InternalBible ):
                     else:
                         xw.writeLineOpenText( 'para', handleInternalTextMarkersForUSX2(adjText)+xtra, ('style',originalMarker), noTextCheck=True ) # no checks coz might already have embedded XML
                     haveOpenPara = paraJustOpened = True
+                elif getMarkerContentType == 'N': # N = never, e.g., b
+                    if haveOpenPara:
+                        xw.removeFinalNewline( suppressFollowingIndent=True )
+                        xw.writeLineClose( 'para' )
+                        haveOpenPara = False
+                    if adjText:
+                        logger.error( "toUSX2XML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
+                    xw.writeLineOpenSelfclose( 'para', ('style',marker) )
                 else:
                     #assert getMarkerContentType == 'A' # A = always, e.g.,  ide, mt, h, s, ip, etc.
                     if getMarkerContentType != 'A':
@@ -4723,15 +4724,8 @@ class BibleWriter( InternalBible ):
                     # TODO: We haven't stripped out character fields from within the verse — not sure how USFX handles them yet
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineText( handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
-                elif getMarkerContentType == 'N': # N = never, e.g., b, nb
-                    if haveOpenPara:
-                        xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( openParaMarker )
-                        haveOpenPara = False
-                    if adjText:
-                        logger.error( "toUSFXXML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
-                    xw.writeLineOpenSelfclose( marker )
-                elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
+                elif (getMarkerContentType == 'S' # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
+                or marker == 'nb' or marker in USFM_BIBLE_PARAGRAPH_MARKERS): # e.g., pmo,qr -- verses might follow
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( openParaMarker )
@@ -4741,6 +4735,14 @@ class BibleWriter( InternalBible ):
                         xw.writeLineOpenText( originalMarker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
                     haveOpenPara = paraJustOpened = True
                     openParaMarker = originalMarker
+                elif getMarkerContentType == 'N': # N = never, e.g., b
+                    if haveOpenPara:
+                        xw.removeFinalNewline( suppressFollowingIndent=True )
+                        xw.writeLineClose( openParaMarker )
+                        haveOpenPara = False
+                    if adjText:
+                        logger.error( "toUSFXXML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
+                    xw.writeLineOpenSelfclose( marker )
                 else:
                     #assert getMarkerContentType == 'A' # A = always, e.g.,  ide, mt, h, s, ip, etc.
                     if getMarkerContentType != 'A':
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 4fef4a8..ad1a981 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -488,7 +488,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
     import tarfile
 
     from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_NESTING_MARKERS
-    from BibleOrgSys.Reference.USFM3Markers import USFM_PRECHAPTER_MARKERS
+    from BibleOrgSys.Reference.USFM3Markers import USFM_PRECHAPTER_MARKERS, USFM_BIBLE_PARAGRAPH_MARKERS
     from BibleOrgSys.InputOutput.MLWriter import MLWriter
     from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
     from BibleOrgSys.Reference.BibleReferences import BibleReferenceList
@@ -1002,7 +1002,8 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 paraJustOpened = False
             # elif markerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
             elif (markerContentType == 'S' # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
-            or marker == 'nb'): # nb -- treated the same in USX 3
+            or marker == 'nb' # nb -- treated the same in USX 3
+            or marker in USFM_BIBLE_PARAGRAPH_MARKERS): # e.g., pmo,qr -- verses might follow
                 if haveOpenPara:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineClose( 'para' )
-- 
2.43.0


From 599883bd4b8535c21f891389d30f7f5dfdc8cc87 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 024/187] fix: USX loader: accept text followed by a note on a
 new indented line

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 1fa408e..e170138 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -278,7 +278,7 @@ class USXXMLBibleBook( BibleBook ):
             if charElement.tail:
                 charTail = charElement.tail
                 if charTail[0]=='\n': charTail = charTail.lstrip() # Paratext puts footnote parts on new lines
-                if charTail and charTail[-1] in ('\n','\t'): charTail = charTail.rstrip()
+                if charTail and '\n' in charTail[len(charTail.rstrip()):]: charTail = charTail.rstrip() # A following note is on a new (indented) line
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "charLine", repr(charLine), "charStyle", repr(charStyle), "charTail", repr(charTail) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert '\n' not in charLine
@@ -366,7 +366,7 @@ class USXXMLBibleBook( BibleBook ):
                 #if '\n' in noteElement.tail: halt
                 noteTail = noteElement.tail
                 if noteTail[0] in ('\n','\t'): noteTail = noteTail.lstrip() # Paratext puts multiple cross-references on new lines
-                if noteTail and noteTail[-1] in ('\n','\t'): noteTail = noteTail.rstrip()
+                if noteTail and '\n' in noteTail[len(noteTail.rstrip()):]: noteTail = noteTail.rstrip() # A following note is on a new (indented) line
                 noteField += noteTail
 
             vPrint( 'Never', DEBUGGING_THIS_MODULE, "  loadNoteField returning noteField: {!r}".format( noteField ) )
-- 
2.43.0


From 30a63c758ad715682fe9067ec9e22fde445fb1f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 025/187] fix: USX, USFX, OSIS and Zefania exports: write
 endnotes like footnotes instead of '--UNKNOWN en EXTRA--'

---
 BibleOrgSys/BibleWriter.py         | 12 +++++++-----
 BibleOrgSys/Formats/USXXMLBible.py |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 5908702..8832779 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3941,7 +3941,7 @@ class BibleWriter( InternalBible ):
                     return USXxrefXML
                 # end of toUSX2XML.processXRef
 
-                def processFootnote( USXfootnote ):
+                def processFootnote( USXfootnote, style='f' ):
                     """
                     Return the USX XML for the processed footnote.
 
@@ -3951,7 +3951,7 @@ class BibleWriter( InternalBible ):
                         gives
                     <note style="f" caller="+"><char style="fr" closed="false">2:23 </char><char style="ft">Te Hibruwanen: bayew egpekegsahid ka ngaran te “malitan” wey “lukes.”</char></note>
                     """
-                    USXfootnoteXML = '<note style="f" '
+                    USXfootnoteXML = f'<note style="{style}" '
                     frOpen = fTextOpen = fCharOpen = False
                     for j,token in enumerate(USXfootnote.split('\\')):
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX processFootnote {j}: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
@@ -4107,6 +4107,8 @@ class BibleWriter( InternalBible ):
                         if extraType == 'fn':
                             extra = processFootnote( extraText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
+                        elif extraType == 'en':
+                            extra = processFootnote( extraText, 'fe' )
                         elif extraType == 'xr':
                             extra = processXRef( extraText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xr got", extra )
@@ -4621,7 +4623,7 @@ class BibleWriter( InternalBible ):
                         #assert 0 <= adjIndex <= len(verse)
                         #adjText = checkText( extraText, checkLeftovers=False ) # do any general character formatting
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
-                        if extraType == 'fn':
+                        if extraType in ('fn','en'):
                             extra = processFootnote( extraText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
@@ -5177,7 +5179,7 @@ class BibleWriter( InternalBible ):
                         #assert 0 <= adjIndex <= len(verse)
                         adjText = checkOSISText( extraText, checkLeftovers=False ) # do any general character formatting on the notes
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
-                        if extraType == 'fn':
+                        if extraType in ('fn','en'):
                             extra = processFootnote( adjText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
@@ -5966,7 +5968,7 @@ class BibleWriter( InternalBible ):
                         #assert 0 <= adjIndex <= len(verse)
                         adjText = checkZefaniaText( extraText, checkLeftovers=False ) # do any general character formatting on the notes
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processZefXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
-                        if extraType == 'fn':
+                        if extraType in ('fn','en'):
                             extra = processFootnote( adjText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index ad1a981..f574959 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -660,7 +660,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 return USXxrefXML
             # end of toUSXXML._processXRef
 
-            def _processFootnote( USXfootnote:str ) -> str:
+            def _processFootnote( USXfootnote:str, style:str='f' ) -> str:
                 """
                 Return the USX XML for the processed footnote.
 
@@ -676,7 +676,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX _processFootnote {j}: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
                     lcToken = token.lower()
                     if j==0:
-                        USXfootnoteXML += f'caller="{token.rstrip()}" style="f">'
+                        USXfootnoteXML += f'caller="{token.rstrip()}" style="{style}">'
                     elif lcToken.startswith('fr '): # footnote reference follows
                         if frOpen:
                             if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fTextOpen
@@ -840,6 +840,8 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     if extraType == 'fn':
                         extra = _processFootnote( extraText )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
+                    elif extraType == 'en':
+                        extra = _processFootnote( extraText, 'fe' )
                     elif extraType == 'xr':
                         extra = _processXRef( extraText )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xr got", extra )
-- 
2.43.0


From c143c4aac1fcb9bb5a4cde60886f4b945ff4746b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 026/187] fix: XML exports: escape the text so that an
 ampersand or angle bracket does not make the file malformed

---
 BibleOrgSys/BibleWriter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8832779..bc7c8d4 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4158,6 +4158,7 @@ class BibleWriter( InternalBible ):
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker in ('v=','cl¤'):
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -4667,6 +4668,7 @@ class BibleWriter( InternalBible ):
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=' or marker=='c#':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -5340,6 +5342,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -6005,6 +6008,7 @@ class BibleWriter( InternalBible ):
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 haveNotesFlag = False
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 #if marker in ('id', 'ide', 'h', 'toc1','toc2','toc3', ): pass # Just ignore these metadata markers
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
@@ -6205,6 +6209,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 #if marker in ('id', 'ide', 'h', 'toc1','toc2','toc3', ): pass # Just ignore these metadata markers
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
@@ -6800,6 +6805,7 @@ class BibleWriter( InternalBible ):
             chapterRef = bookRef + '.0'
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
-- 
2.43.0


From 0bfd31fff5bf75ec13fdb8de04d18627029d067b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 027/187] fix: USX loader: do not keep the layout whitespace
 ahead of a note as part of the text

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index e170138..15944c5 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -201,6 +201,7 @@ class USXXMLBibleBook( BibleBook ):
                 if verseNumberElement.tail:
                     vText = verseNumberElement.tail
                     if vText[0]=='\n': vText = vText.lstrip() # Paratext puts cross references on a new line
+                    if vText and '\n' in vText[len(vText.rstrip()):]: vText = vText.rstrip() # A following note is on a new (indented) line
                     if vText:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(vText) )
                         self.appendToLastLine( vText )
@@ -404,6 +405,8 @@ class USXXMLBibleBook( BibleBook ):
 
             # Now process the paragraph text (or write a paragraph marker anyway)
             paragraphText = paragraphXML.text if paragraphXML.text and paragraphXML.text.strip() else ''
+            if paragraphText and paragraphText[0]=='\n': paragraphText = paragraphText.lstrip() # The text is on a new (indented) line
+            if paragraphText and '\n' in paragraphText[len(paragraphText.rstrip()):]: paragraphText = paragraphText.rstrip() # A following element is on a new (indented) line
             if version is None: paragraphText = paragraphText.rstrip() # Don't need to strip extra spaces in v2
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USXXMLBibleBook.load newLine: {!r} {!r}".format( paragraphStyle, paragraphText ) )
             self.addLine( paragraphStyle, paragraphText )
-- 
2.43.0


From 54243336c926cb87a7ecd8c68f013b6dd84457f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 028/187] fix: USX loader: keep the attributes of w fields

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 15944c5..9cbd108 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -221,6 +221,7 @@ class USXXMLBibleBook( BibleBook ):
 
             # Process the attributes first
             charStyle = charClosed = None
+            charAttributes = '' # Word attributes, e.g., lemma and strong
             for attrib,value in charElement.items():
                 if attrib=='style':
                     charStyle = value # This is basically the USFM character marker name
@@ -229,6 +230,8 @@ class USXXMLBibleBook( BibleBook ):
                 elif attrib == 'closed':
                     assert value == 'false'
                     charClosed = False
+                elif charElement.get( 'style' ) == 'w':
+                    charAttributes += f' {attrib}="{value}"'
                 else:
                     logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
@@ -270,6 +273,7 @@ class USXXMLBibleBook( BibleBook ):
                 if BibleOrgSysGlobals.strictCheckingFlag:
                     assert '\n' not in charLine
                     assert '\t' not in charLine
+            if charAttributes: charLine = f'{charLine}|{charAttributes[1:]}'
             if charClosed != False: # None or True
                 # assert not charLine.endswith( ' ' )
                 charLine += '\\{}*'.format( charStyle )
-- 
2.43.0


From 59620afc505660ddb714ab185c59ce4dbe9d18b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 029/187] fix: USX loader: mark nested character fields as such
 (with a plus sign)

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 9cbd108..574b5d1 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -208,7 +208,7 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.loadVerseNumberField
 
 
-        def loadCharField( charElement, charLocation:str ) -> str:
+        def loadCharField( charElement, charLocation:str, nestedFlag:bool=False ) -> str:
             """
             Load a formatted / char field from the USX XML.
 
@@ -235,7 +235,8 @@ class USXXMLBibleBook( BibleBook ):
                 else:
                     logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-            charLine = f"\\{charStyle} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
+            charMarker = f'+{charStyle}' if nestedFlag else charStyle # USFM needs the plus sign for a character field inside another one
+            charLine = f"\\{charMarker} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
             assert '\n' not in charLine
 
             # Now process the subelements -- chars are one of the few multiply embedded fields in USX
@@ -244,7 +245,7 @@ class USXXMLBibleBook( BibleBook ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} {}'.format( self.BBB, C, V, charElement.tag ) )
                 if subelement.tag == 'char': # milestone (not a container)
                     # print( f"RECURSIVE {sublocation=} {subelement=}" )
-                    charLine += loadCharField( subelement, sublocation ) # recursive call
+                    charLine += loadCharField( subelement, sublocation, nestedFlag=charStyle[0] not in 'fx' ) # recursive call (but footnote and cross-reference parts aren't character styles)
                 elif subelement.tag == 'ref':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", BibleOrgSysGlobals.elementStr( subelement ) )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sublocation )
@@ -276,7 +277,7 @@ class USXXMLBibleBook( BibleBook ):
             if charAttributes: charLine = f'{charLine}|{charAttributes[1:]}'
             if charClosed != False: # None or True
                 # assert not charLine.endswith( ' ' )
-                charLine += '\\{}*'.format( charStyle )
+                charLine += '\\{}*'.format( charMarker )
             # A character field must be added to the previous field
             #if charElement.tail is not None: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " tail2", repr(charElement.tail) )
             charTail = ''
-- 
2.43.0


From b5bcadae808e5e5d18461c92f160cbbfc66c417c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 030/187] fix: USX2 and USFX exports: write nested character
 fields as char elements

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index bc7c8d4..80e5e36 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3827,7 +3827,7 @@ class BibleWriter( InternalBible ):
                 #     pass
 
                 # Old code
-                adjText = originalText
+                adjText = re.sub( r'\\\+(\w+) (.*?)\\\+\1\*', r'<char style="\1">\2</char>', originalText ) # Nested character fields
                 haveOpenChar = False
                 for charMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "handleInternalTextMarkersForUSX2", charMarker )
@@ -4404,7 +4404,7 @@ class BibleWriter( InternalBible ):
                     pass
 
                 # Old code
-                adjText = originalText
+                adjText = re.sub( r'\\\+(\w+) (.*?)\\\+\1\*', r'<char style="\1">\2</char>', originalText ) # Nested character fields
                 haveOpenChar = False
                 for charMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "handleInternalTextMarkersForUSFX", charMarker )
-- 
2.43.0


From 6d48f3c54f741c8cfa0ffb357eae7fb6e1605421 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 031/187] fix: theWord and MySword exports: keep the text after
 a cross-reference

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 2b84c5e..cb4b8f3 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -426,7 +426,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             assert ixEnd != -1
             xrList = line[ixXT+4:ixEnd].strip().split(';')
             newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
+            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
         else:
             logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
-- 
2.43.0


From 4e83edebd94307f9c06d3f8d03c8a96b3f05131c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 032/187] fix: e-Sword and MyBible exports: do not lose the
 verse ahead of a missing verse

---
 BibleOrgSys/Formats/ESwordBible.py  |  3 +--
 BibleOrgSys/Formats/MyBibleBible.py |  3 +--
 BibleOrgSys/Formats/MySwordBible.py | 18 +++++++++---------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index cbc3521..b7b5307 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1516,8 +1516,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                             sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
                                 (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
                             lineCount += 1
-                    ourGlobals['lastLine'] = composedLine
-                ourGlobals['lastBCV'] = (nBBB,C,V)
+                        ourGlobals['lastLine'], ourGlobals['lastBCV'] = composedLine, (nBBB,C,V) # Not for missing verses
                 V += 1
                 if V > numV:
                     C += 1
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..8cd2de2 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1151,8 +1151,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                                 logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
                                 raise e # again
                             #lineCount += 1
-                    ourGlobals['lastLine'] = composedLine
-                ourGlobals['lastBCV'] = (nBBB,C,V)
+                        ourGlobals['lastLine'], ourGlobals['lastBCV'] = composedLine, (nBBB,C,V) # Not for missing verses
                 V += 1
                 if V > numV:
                     C += 1
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 3566b7f..3c882b7 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -509,15 +509,15 @@ def createMySwordModule( self, outputFolder, controlDict ):
                             verseData.extend( verseData18 )
                         except KeyError: pass #  just ignore it
                     composedLine = ''
-                    if verseData: composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
-                    # Stay one line behind (because paragraph indicators get appended to the previous line)
-                    if ourGlobals['lastBCV'] is not None \
-                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                        lineCount += 1
-                    ourGlobals['lastLine'] = composedLine
-                ourGlobals['lastBCV'] = (nBBB,C,V)
+                    if verseData:
+                        composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
+                        # Stay one line behind (because paragraph indicators get appended to the previous line)
+                        if ourGlobals['lastBCV'] is not None \
+                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                            lineCount += 1
+                        ourGlobals['lastLine'], ourGlobals['lastBCV'] = composedLine, (nBBB,C,V) # Not for missing verses
                 V += 1
                 if V > numV:
                     C += 1
-- 
2.43.0


From 03a2ef66c6cfd57596524cbe567dc35c92ef9ea2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 033/187] fix: theWord, MySword, e-Sword and MyBible exports
 strip word attributes and handle endnotes

---
 BibleOrgSys/Formats/ESwordBible.py  | 3 +++
 BibleOrgSys/Formats/MyBibleBible.py | 4 +++-
 BibleOrgSys/Formats/theWordBible.py | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index b7b5307..49bd04b 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1188,6 +1188,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
             line = removeUSFMCharacterField( 'x', line, closedFlag=True ).lstrip() # Remove superfluous spaces
 
         if '\\f' in line: # Handle footnotes
+            line = line.replace( '\\fe ', '\\f ' ).replace( '\\fe*', '\\f*' ) # Handle endnotes like footnotes
             line = removeUSFMCharacterField( 'f', line, closedFlag=True ).lstrip() # Remove superfluous spaces
             #for marker in ( 'fr', 'fm', ): # simply remove these whole field
                 #line = removeUSFMCharacterField( marker, line, closedFlag=None )
@@ -1215,6 +1216,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 ##halt
 
         if '\\' in line: # Handle character formatting fields
+            line = re.sub( r'(\\\+?w [^\\|]*)\|[^\\]*', r'\1', line ) # Remove word attributes
             line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
             line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
             line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
@@ -1227,6 +1229,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
                 ( ('nd','sc',), '<font size=-1>','</font>' ),
+                ( ('w','pn','ord','no',), '','' ),
                 )
             line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
             if '\\nd' not in originalLine and '\\+nd' not in originalLine:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 8cd2de2..e1866fa 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -795,6 +795,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
             line = removeUSFMCharacterField( 'x', line, closedFlag=True ).lstrip() # Remove superfluous spaces
 
         if '\\f' in line: # Handle footnotes
+            line = line.replace( '\\fe ', '\\f ' ).replace( '\\fe*', '\\f*' ) # Handle endnotes like footnotes
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "originalLine", repr(originalLine) )
             while True: # fix internal footnote formatting
                 match = re.search( r"\\f (.+?)\\f\*", line )
@@ -853,6 +854,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 ###halt
 
         if '\\' in line: # Handle character formatting fields
+            line = re.sub( r'(\\\+?w [^\\|]*)\|[^\\]*', r'\1', line ) # Remove word attributes
             line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
             #line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
             line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
@@ -864,7 +866,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 ( ('bdit',), '<b><i>','</i></b>' ),
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
-                ( ('nd','sc',), '','' ),
+                ( ('nd','sc','w','pn','ord','no',), '','' ),
                 #( ('f',), '<n>','</n>' ),
                 ( ('str',), '<S>','</S>' ),
                 )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index cb4b8f3..083f99e 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -432,6 +432,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
 
     if '\\f' in line: # Handle footnotes
+        line = line.replace( '\\fe ', '\\f ' ).replace( '\\fe*', '\\f*' ) # Handle endnotes like footnotes
         for marker in ( 'fr', 'fm', ): # simply remove these whole fields
             line = removeUSFMCharacterField( marker, line, closedFlag=None )
         for marker in ( 'fq', 'fqa', 'fl', 'fk', ): # italicise these ones
@@ -458,6 +459,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             #halt
 
     if '\\' in line: # Handle character formatting fields
+        line = re.sub( r'(\\\+?w [^\\|]*)\|[^\\]*', r'\1', line ) # Remove word attributes
         line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
         line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
         line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
@@ -470,7 +472,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             ( ('bd','em','k','w'), '<b>','</b>' ),
             ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
             ( ('nd','sc',), '<font size=-1>','</font>' ),
-            ( ('pn','ord',), '','' ),
+            ( ('pn','ord','no',), '','' ),
             )
         line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
         if '\\nd' not in originalLine and '\\+nd' not in originalLine:
-- 
2.43.0


From c727e9d0add5562540d9f0b774838ea110b6ab0a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 034/187] fix: Zefania and Haggai exports: number a verse whose
 text starts in a following paragraph

---
 BibleOrgSys/BibleWriter.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 80e5e36..2080cb6 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6003,7 +6003,7 @@ class BibleWriter( InternalBible ):
 
             # Main code for toZefaniaXML.writeZefBook
             writerObject.writeLineOpen( 'BIBLEBOOK', [('bnumber',BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber(BBB)), ('bname',BibleOrgSysGlobals.loadedBibleBooksCodes.getEnglishName_NR(BBB)), ('bsname',OSISAbbrev)] )
-            haveOpenChapter, gotVP = False, None
+            haveOpenChapter, gotVP, numberAttributes = False, None, None
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 haveNotesFlag = False
@@ -6039,6 +6039,8 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toZefania: Missing text for v" ); continue
                     verseNumberString, endVerseNumberString = handleVerseNumber( BBB, C, V, text )
+                    # This goes with the first text of the verse (which might be in a following paragraph)
+                    numberAttributes = ('vnumber',verseNumberString) if endVerseNumberString is None else [('vnumber',verseNumberString),('enumber',endVerseNumberString)]
                     #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
 
                 elif marker in ('mt1','mt2','mt3','mt4', 'mte1','mte2','mte3','mte4', 'ms1','ms2','ms3','ms4',) \
@@ -6065,9 +6067,8 @@ class BibleWriter( InternalBible ):
                             #if '\\' in text: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toZefaniaX: {} {}:{} {!r}".format( BBB,C,V, text ) )
                             #assert '\\' not in text
                         haveEmbeddedStylesFlag = '<NOTE' in text or '<XREF' in text or '<STYLE' in text
-                    writerObject.writeLineOpenClose ( 'VERS', text,
-                            ('vnumber',verseNumberString) if endVerseNumberString is None else [('vnumber',verseNumberString),('enumber',endVerseNumberString)],
-                            noTextCheck=haveEmbeddedStylesFlag )
+                    writerObject.writeLineOpenClose ( 'VERS', text, numberAttributes, noTextCheck=haveEmbeddedStylesFlag )
+                    numberAttributes = None
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     text = processZefXRefsAndFootnotes( text, extras )
@@ -6077,7 +6078,8 @@ class BibleWriter( InternalBible ):
                         #assert '\\' not in text
                     if text:
                         haveEmbeddedStylesFlag = '<NOTE' in text or '<XREF' in text or '<STYLE' in text
-                        writerObject.writeLineOpenClose ( 'VERS', text, noTextCheck=haveEmbeddedStylesFlag )
+                        writerObject.writeLineOpenClose ( 'VERS', text, numberAttributes, noTextCheck=haveEmbeddedStylesFlag )
+                        numberAttributes = None
                 else:
                     if text:
                         logger.error( "toZefania: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
@@ -6205,7 +6207,7 @@ class BibleWriter( InternalBible ):
                 return
             writerObject.writeLineOpen( 'BIBLEBOOK', [('bnumber',BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber(BBB)), ('bname',BibleOrgSysGlobals.loadedBibleBooksCodes.getEnglishName_NR(BBB)), ('bsname',OSISAbbrev)] )
             haveOpenChapter = haveOpenParagraph = False
-            gotVP = None
+            gotVP = numberAttributes = None
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
@@ -6240,6 +6242,7 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toHaggaiXML: Missing text for v" ); continue
                     verseNumberString = text.replace('<','').replace('>','').replace('"','') # Used below but remove anything that'll cause a big XML problem later
+                    numberAttributes = ('vnumber',verseNumberString) # This goes with the first text of the verse (which might be in a following paragraph)
                     #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
 
                 elif marker in ('p', 'pi1','pi2','pi3','pi4', ):
@@ -6264,11 +6267,14 @@ class BibleWriter( InternalBible ):
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
                     if not text: # this is an empty (untranslated) verse
                         text = '- - -' # but we'll put in a filler
-                    writerObject.writeLineOpenClose ( 'VERSE', text, ('vnumber',verseNumberString) )
+                    writerObject.writeLineOpenClose ( 'VERSE', text, numberAttributes )
+                    numberAttributes = None
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
-                    if text: writerObject.writeLineOpenClose ( 'VERSE', text )
+                    if text:
+                        writerObject.writeLineOpenClose ( 'VERSE', text, numberAttributes )
+                        numberAttributes = None
                 else:
                     if text:
                         logger.error( "toHaggai: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
-- 
2.43.0


From 741141f783f8ff2ab9fa7a57db1a4a61129a3e1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 035/187] fix: OSIS and Zefania exports: handle nested
 character fields

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 2080cb6..e9a009e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5018,7 +5018,7 @@ class BibleWriter( InternalBible ):
                     return helpText
                 # end of checkOSISTextHelper
 
-                adjText = textToCheck
+                adjText = textToCheck.replace( '\\+', '\\' ) # Nested character markers
                 if '<<' in adjText or '>>' in adjText:
                     logger.warning( _("toOSIS: Unexpected double angle brackets in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
                     adjText = adjText.replace('<<','“' ).replace('>>','”' )
@@ -5774,7 +5774,7 @@ class BibleWriter( InternalBible ):
                 # end of checkZefaniaTextHelper
 
                 # Main code for checkZefaniaText
-                adjText = textToCheck
+                adjText = textToCheck.replace( '\\+', '\\' ) # Nested character markers
                 if '<<' in adjText or '>>' in adjText:
                     logger.warning( _("toZefania: Unexpected double angle brackets in {}: {!r} field is {!r}").format( toZefGlobals['verseRef'], marker, textToCheck ) )
                     adjText = adjText.replace('<<','“' ).replace('>>','”' )
-- 
2.43.0


From e92640a0ebff45c967f42ced77ee0a9776b3219d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 036/187] fix: OSIS and Zefania exports: handle the remaining
 common character fields

---
 BibleOrgSys/BibleWriter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index e9a009e..9431085 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5032,6 +5032,11 @@ class BibleWriter( InternalBible ):
                 if '\\bd ' in adjText: adjText = checkOSISTextHelper('bd',adjText).replace('\\bd ','<hi type="bold">').replace('\\bd*','</hi>')
                 if '\\em ' in adjText: adjText = checkOSISTextHelper('em',adjText).replace('\\em ','<hi type="bold">').replace('\\em*','</hi>')
                 if '\\sc ' in adjText: adjText = checkOSISTextHelper('sc',adjText).replace('\\sc ','<hi type="SMALLCAPS">').replace('\\sc*','</hi>') # XXXXXX temp …
+                for charMarker,openField,closeField in ( ('qt','<seg type="otPassage">','</seg>'), ('pn','<name>','</name>'), ('tl','<foreign>','</foreign>'), ('k','<seg type="keyword">','</seg>'),
+                                        ('sls','<foreign type="x-secondaryLanguage">','</foreign>'), ('dc','<transChange type="added" editions="dc">','</transChange>'), ('qs','<hi type="italic">','</hi>'),
+                                        ('ord','<hi type="super">','</hi>'), ('sup','<hi type="super">','</hi>'), ('no','<hi type="normal">','</hi>'),
+                                        ('bdit','<hi type="bold"><hi type="italic">','</hi></hi>'), ):
+                    if f'\\{charMarker} ' in adjText: adjText = checkOSISTextHelper(charMarker,adjText).replace(f'\\{charMarker} ',openField).replace(f'\\{charMarker}*',closeField)
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the OSIS (for now at least)
                     ix1 = adjText.find( '\\fig ' )
                     ix2 = adjText.find( '\\fig*' )
@@ -5788,6 +5793,9 @@ class BibleWriter( InternalBible ):
                 if '\\bd ' in adjText: adjText = checkZefaniaTextHelper('bd',adjText).replace('\\bd ','<STYLE fs="bold">').replace('\\bd*','</STYLE>')
                 if '\\em ' in adjText: adjText = checkZefaniaTextHelper('em',adjText).replace('\\em ','<STYLE fs="bold">').replace('\\em*','</STYLE>') # ???
                 if '\\sc ' in adjText: adjText = checkZefaniaTextHelper('sc',adjText).replace('\\sc ','<STYLE fs="small-caps">').replace('\\sc*','</STYLE>')
+                for charMarker,style in ( ('bk','italic'), ('qt','italic'), ('tl','italic'), ('sls','italic'), ('dc','italic'), ('qs','italic'), ('k','bold'), ('bdit','bold'),
+                                        ('ord','super'), ('sup','super'), ('pn','normal'), ('no','normal'), ):
+                    if f'\\{charMarker} ' in adjText: adjText = checkZefaniaTextHelper(charMarker,adjText).replace(f'\\{charMarker} ',f'<STYLE fs="{style}">').replace(f'\\{charMarker}*','</STYLE>')
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the Zefania (for now at least)
                     ix1 = adjText.find( '\\fig ' )
                     ix2 = adjText.find( '\\fig*' )
-- 
2.43.0


From fe1eb14a018098f599c798d42eef4609b063511d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 037/187] fix: OSIS export: keep footnote keywords

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 9431085..8538382 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5157,9 +5157,9 @@ class BibleWriter( InternalBible ):
                                     logger.error( _("toOSIS: Footnote at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
                         elif lcToken.startswith('ft ') or lcToken.startswith('fr* '): # footnote text follows
                             OSISfootnote += token[3:]
-                        elif lcToken.startswith('fq ') or token.startswith('fqa '): # footnote quote follows — NOTE: We also assume here that the next marker closes the fq field
+                        elif lcToken.startswith('fq ') or token.startswith('fqa ') or lcToken.startswith('fk '): # footnote quote follows — NOTE: We also assume here that the next marker closes the fq field
                             OSISfootnote += '<catchWord>{}</catchWord>'.format(token[3:]) # Note that the trailing space goes in the catchword here — seems messy
-                        elif lcToken in ('fr*','fr* ','ft*','ft* ','fq*','fq* ','fqa*','fqa* ',):
+                        elif lcToken in ('fr*','fr* ','ft*','ft* ','fq*','fq* ','fqa*','fqa* ','fk*','fk* ',):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.critical( _("toOSIS: Unprocessed {!r} token in {} footnote {!r}").format(token, toOSISGlobals['verseRef'], USFMfootnote) )
-- 
2.43.0


From 6852f5cb01165e003d36a072555bb140b741ca57 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 038/187] fix: OSIS export: close poetry lines and groups where
 they end

---
 BibleOrgSys/BibleWriter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8538382..1f9033c 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5306,16 +5306,18 @@ class BibleWriter( InternalBible ):
             # end of toOSISXML.closeAnyOpenSubsection
 
             def closeAnyOpenParagraph():
-                """ Close a <p> if it's open. """
+                """ Close a <p> if it's open (and any poetry inside it). """
                 nonlocal haveOpenParagraph
                 if haveOpenParagraph:
+                    closeAnyOpenLG()
                     writerObject.writeLineClose( 'p' )
                     haveOpenParagraph = False
             # end of toOSISXML.closeAnyOpenParagraph
 
             def closeAnyOpenLG():
-                """ Close a <lg> if it's open. """
+                """ Close a <lg> if it's open (and any <l> inside it). """
                 nonlocal haveOpenLG
+                closeAnyOpenL()
                 if haveOpenLG:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "closeAnyOpenLG", toOSISGlobals['verseRef'] )
                     writerObject.writeLineClose( 'lg' )
@@ -5442,7 +5444,6 @@ class BibleWriter( InternalBible ):
                     if not haveOpenL: closeAnyOpenLG()
                     V = text
                     writeVerseStart( writerObject, BBB, chapterRef, verseNumberString )
-                    closeAnyOpenL()
 
                 elif marker in ('ms1','ms2','ms3','ms4',):
                     if haveOpenParagraph:
-- 
2.43.0


From badbdbfbf6232184b9fffa913b1764981fd02089 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 039/187] fix: All parts of a split verse are exported to the
 Bible module databases

---
 BibleOrgSys/Formats/ESwordBible.py  | 4 ++--
 BibleOrgSys/Formats/MyBibleBible.py | 4 ++--
 BibleOrgSys/Formats/MySwordBible.py | 2 +-
 BibleOrgSys/Formats/theWordBible.py | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 49bd04b..2e4b32d 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1338,7 +1338,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         composedLine += '<sup>('+text+')</sup> ' # Put the additional verse number into the text in parenthesis
                 elif vCount > 1: # We have an additional verse number
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: assert text != str(V)
-                    composedLine += ' <sup>('+text+')</sup>' # Put the additional verse number into the text in parenthesis
+                    composedLine += ' <sup>('+text+')</sup> ' # Put the additional verse number into the text in parenthesis
                 lastMarker = marker
                 continue
 
@@ -1490,7 +1490,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # Include all parts of a split verse
                         verseData, context = result
                     except KeyError: # Just ignore missing verses
                         logging.warning( "BibleWriter.toESword: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index e1866fa..86bcf20 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -979,7 +979,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         composedLine += '<sup>('+adjustLine(BBB,C,V,text)+')</sup> ' # Put the additional verse number into the text in parenthesis
                 elif vCount > 1: # We have an additional verse number
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: assert text != str(V)
-                    composedLine += ' <sup>('+adjustLine(BBB,C,V,text)+')</sup>' # Put the additional verse number into the text in parenthesis
+                    composedLine += ' <sup>('+adjustLine(BBB,C,V,text)+')</sup> ' # Put the additional verse number into the text in parenthesis
                 lastMarker = marker
                 continue
 
@@ -1120,7 +1120,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # Include all parts of a split verse
                         verseData, context = result
                     except KeyError: # Just ignore missing verses
                         logging.warning( "BibleWriter.toMyBible: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 3c882b7..ca221cf 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -491,7 +491,7 @@ def createMySwordModule( self, outputFolder, controlDict ):
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # Include all parts of a split verse
                         verseData, context = result
                     except KeyError: # Missing verses
                         logging.warning( "BibleWriter.createMySwordModule: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 083f99e..6f2ea0c 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1026,7 +1026,7 @@ def theWordComposeVerseLine( BBB:str, C:str, V:str, verseData, ourGlobals ):
                     composedLine += ' <sup>({})</sup> '.format( text ) # Put the additional verse number into the text in parenthesis
             elif vCount > 1: # We have an additional verse number
                 if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: assert text != str(V)
-                composedLine += ' <sup>({})</sup>'.format( text ) # Put the additional verse number into the text in parenthesis
+                composedLine += ' <sup>({})</sup> '.format( text ) # Put the additional verse number into the text in parenthesis
             lastMarker = marker
             continue
 
@@ -1203,7 +1203,7 @@ def createTheWordModule( self, outputFolder, controlDict ):
             verseData, composedLine = None, ''
             if bkData:
                 try:
-                    result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                    result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # Include all parts of a split verse
                     verseData, context = result
                 except KeyError:
                     logging.warning( "BibleWriter.totheWord: missing source verse at {} {}:{}".format( BBB, C, V ) )
-- 
2.43.0


From c6898905a4858d1ce7efd678408ab2003e29ccde Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 040/187] fix: Bible module databases keep words apart at
 paragraph breaks and handle superscripts

---
 BibleOrgSys/Formats/ESwordBible.py  | 6 ++++--
 BibleOrgSys/Formats/MyBibleBible.py | 4 +++-
 BibleOrgSys/Formats/theWordBible.py | 5 +++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 2e4b32d..6edfd23 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1229,6 +1229,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
                 ( ('nd','sc',), '<font size=-1>','</font>' ),
+                ( ('sup',), '<sup>','</sup>' ),
                 ( ('w','pn','ord','no',), '','' ),
                 )
             line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
@@ -1356,7 +1357,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                     ourGlobals['lastLine'] = ourGlobals['lastLine'].rstrip() + '\\line ' # append the new paragraph marker to the previous line
                 composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
             elif marker == 's2': composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
-            elif marker in ( 's3','s4', 'sr','mr', 'd', ): composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~b~^~i~^~f0 '
+            elif marker in ( 's3','s4', 'sr','mr', 'd', ): composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
             elif marker in ( 'qa', 'r', ):
                 if marker=='r' and text and text[0]!='(' and text[-1]!=')': # Put parenthesis around this if not already there
                     text = '(' + text + ')'
@@ -1427,7 +1428,8 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lastMarker )
                 if lastMarker == 'p': composedLine += '~^~line ' # We had a continuation paragraph
                 elif lastMarker == 'm': composedLine += '~^~line ' # We had a continuation paragraph
-                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers: pass # Did we need to do anything here???
+                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers:
+                    if composedLine: composedLine += ' ' # Don't join the words on either side
                 elif lastMarker != 'v':
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, lastMarker, verseData )
                     composedLine += adjustLine(BBB,C,V, text )
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 86bcf20..9422a21 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -866,6 +866,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 ( ('bdit',), '<b><i>','</i></b>' ),
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
+                ( ('sup',), '<sup>','</sup>' ),
                 ( ('nd','sc','w','pn','ord','no',), '','' ),
                 #( ('f',), '<n>','</n>' ),
                 ( ('str',), '<S>','</S>' ),
@@ -1070,7 +1071,8 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lastMarker )
                 if lastMarker == 'p': composedLine += '<pb/>' # We had a continuation paragraph
                 elif lastMarker == 'm': composedLine += '<br/>' # We had a continuation paragraph
-                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers: pass # Did we need to do anything here???
+                elif lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers:
+                    if composedLine: composedLine += ' ' # Don't join the words on either side
                 elif lastMarker != 'v':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, lastMarker, verseData )
                     composedLine += adjustLine(BBB,C,V, text )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 6f2ea0c..e0826bc 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -472,6 +472,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             ( ('bd','em','k','w'), '<b>','</b>' ),
             ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
             ( ('nd','sc',), '<font size=-1>','</font>' ),
+            ( ('sup',), '<sup>','</sup>' ),
             ( ('pn','ord','no',), '','' ),
             )
         line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
@@ -1149,8 +1150,8 @@ def theWordComposeVerseLine( BBB:str, C:str, V:str, verseData, ourGlobals ):
             #elif ourGlobals['pi6']: composedLine += '<PI6>'
             #elif ourGlobals['pi7']: composedLine += '<PI7>'
             composedLine = f'{composedLine}{theWordAdjustLine( BBB,C,V, text )}'
-        elif marker in ('nb',): # Just ignore these ones
-            pass
+        elif marker in ('nb',): # Just ignore these ones (but don't join the words on either side)
+            if composedLine: composedLine += ' '
         else:
             logging.warning( "theWordComposeVerseLine: doesn't handle {!r} yet".format( marker ) )
             vPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"theWordComposeVerseLine: doesn't handle '{marker}' yet" )
-- 
2.43.0


From ca6750e05435e4b6eada1aaeb11d8a046cc934e0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 041/187] fix: OSIS and Sword exports include all kinds of
 introduction paragraphs

---
 BibleOrgSys/BibleWriter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 1f9033c..cb0d747 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5374,9 +5374,9 @@ class BibleWriter( InternalBible ):
                         haveOpenIntro = True
                     if text: writerObject.writeLineOpenClose( 'title', checkOSISText(text),('level',marker[-1]) ) # Introduction heading
                     logger.error( _("toOSIS: {} Have a blank {} field—ignoring it").format( toOSISGlobals['verseRef'], marker ) )
-                elif marker=='ip':
+                elif marker in ('ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex', ):
                     if not haveOpenIntro: # Shouldn't happen but we'll try our best
-                        logger.error( _("toOSIS: {} Have an ip not in an introduction section—ignoring it").format( toOSISGlobals['verseRef'] ) )
+                        logger.error( _("toOSIS: {} Have an {} not in an introduction section—opening an intro section").format( toOSISGlobals['verseRef'], marker ) )
                         writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
                         haveOpenIntro = True
                     closeAnyOpenParagraph()
@@ -6851,9 +6851,9 @@ class BibleWriter( InternalBible ):
                     haveOpenIntro = True
                     chapterRef = bookRef + '.0' # Not used by Sword
                     toSwordGlobals['verseRef'] = chapterRef + '.0' # Not used by Sword
-                elif marker=='ip':
+                elif marker in ('ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex', ):
                     if not haveOpenIntro: # Shouldn't happen but we'll try our best
-                        logger.error( "toSwordModule: {} Have an ip not in an introduction section—opening an intro section".format( toSwordGlobals['verseRef'] ) )
+                        logger.error( "toSwordModule: {} Have an {} not in an introduction section—opening an intro section".format( toSwordGlobals['verseRef'], marker ) )
                         writerObject.writeLineOpen( 'div', ('type',"introduction") )
                         haveOpenIntro = True
                     closeAnyOpenParagraph()
-- 
2.43.0


From 522ba6d3078440f1c2e4bdeb574247732c622a3f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 042/187] fix: Plain text and VPL exports don't put section
 references and other headings into the previous verse

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index cb0d747..f9c7e0f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1166,7 +1166,7 @@ class BibleWriter( InternalBible ):
                     marker, text = entry.getMarker(), entry.getCleanText() # Clean text has no notes or character formatting
                     if marker.startswith('¬') or marker in ('c#','v='):
                         continue # silent ignore some of our added markers
-                    if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('r','d','sp','cp','ie'):
+                    if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('r','d','sp','cp','ie', 'sr','mr','qa','cl','cd'):
                         ignoredMarkers.add( marker ) # Just ignore these lines
                     elif marker == 'h':
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
@@ -1286,7 +1286,7 @@ class BibleWriter( InternalBible ):
                         if marker in ('c#','vp#',):
                             ignoredMarkers.add( marker )
                             continue
-                        if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
+                        if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('r','d','sp','cp','ie', 'sr','mr','qa','cl','cd'): # Just ignore these lines
                             ignoredMarkers.add( marker )
                         elif marker == 'h':
                             ignoredMarkers.add( marker )
-- 
2.43.0


From 78f96a77d3b6c4e54d9989d99864ab3f3d93dd7a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 043/187] fix: the Markdown export no longer writes the
 internal pseudo lines as text and removes all character markers

---
 BibleOrgSys/BibleWriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index f9c7e0f..8368c18 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1654,6 +1654,8 @@ class BibleWriter( InternalBible ):
             text = text.replace( '\\bd ', '*' ).replace( '\\bd*', '*' )
             text = text.replace( '\\sc ', '' ).replace( '\\sc*', '' )
 
+            text = re.sub( r'\\\+?[a-z][a-z0-9]{0,4}[ \*]', '', text ) # Remove any other character formatting, e.g., '\pn ' and '\+nd*'
+
             if '\\' in text or '<' in text or '>' in text:
                 logger.error( "formatMarkdownVerseText programming error: unprocessed code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "formatMarkdownVerseText: unprocessed code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
@@ -1681,6 +1683,8 @@ class BibleWriter( InternalBible ):
                 gotVP = None
                 for entry in internalBibleBookData:
                     marker, adjText, extras = entry.getMarker(), entry.getAdjustedText(), entry.getExtras()
+                    if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker in ('c#','v='):
+                        continue # Just ignore added markers — not needed here
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-- 
2.43.0


From f96a3899803ffdf4f55347c3ab73278c3c0d8a35 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 044/187] fix: the Markdown export writes the notes it links
 to, and keeps headings on lines of their own

---
 BibleOrgSys/BibleWriter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8368c18..c58f4c5 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1469,7 +1469,7 @@ class BibleWriter( InternalBible ):
                             fnText = fnTitle = rawFootnoteContents
 
                     idName = "{}{}".format( 'FNote' if noteType=='footnote' else 'ENote', fnIndex )
-                    noteMD = '[fn{}]({})'.format( noteType, idName )
+                    noteMD = '[fn{}](#{})'.format( noteType, idName )
 
                     endMD = '<p id="{}" class="{}">'.format( idName, noteType )
                     if originCV:
@@ -1529,7 +1529,7 @@ class BibleWriter( InternalBible ):
                         else: # don't really know what it is — assume it's all just text
                             xrefText = MDxref.strip()
 
-                    xrefMD = '[xr{}]({})'.format( xrefIndex, xrefText )
+                    xrefMD = '[xr{}](#XRef{})'.format( xrefIndex, xrefIndex )
 
                     endMD = '<p id="XRef{}" class="xref">'.format( xrefIndex )
                     if not origin: # we'll try to make one
@@ -1707,7 +1707,7 @@ class BibleWriter( InternalBible ):
                     elif marker == 'c':
                         C, V = adjText, '0'
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
-                        myFile.write( "\n\nChapter {}".format( adjText ) )
+                        myFile.write( "\n\nChapter {}\n".format( adjText ) )
                     elif marker == 'vp#': # This precedes a v field and has the verse number to be printed
                         gotVP = adjText # Just remember it for now
                     elif marker == 'v':
@@ -1717,11 +1717,18 @@ class BibleWriter( InternalBible ):
                             gotVP = None
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
                         myFile.write( "\n{} ".format( adjText ) )
+                    elif marker in ('d','qa','sp','r','sr','mr'): # These need their own line
+                        if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
+                        myFile.write( "\n\n{}\n".format( __formatMarkdownVerseText( BBB, C, V, adjText, extras ) ) )
                     elif marker in ('p',): # Drop out these fields
                         ignoredMarkers.add( marker )
                     elif adjText:
                         textBuffer += (' ' if textBuffer else '') + __formatMarkdownVerseText( BBB, C, V, adjText, extras )
                 if textBuffer: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
+                for notesHeading,notesName in ( ('Footnotes','footnoteMD'), ('Endnotes','endnoteMD'), ('Cross References','xrefMD') ):
+                    if ourGlobals[notesName]:
+                        myFile.write( "\n\n### {}\n".format( notesHeading ) )
+                        for noteLine in ourGlobals[notesName]: myFile.write( "{}\n".format( noteLine ) )
 
                     #if verseByVerse:
                         #myFile.write( "{} ({}): {!r} {!r} {}\n" \
-- 
2.43.0


From 364185824664797f65c421ee7ac3a1bcf9ea06f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 045/187] fix: the HTML5 export writes well-formed lists,
 escapes text, handles all character markers and links notes to existing
 places

---
 BibleOrgSys/BibleWriter.py | 67 ++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c58f4c5..ce5443c 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1792,6 +1792,16 @@ class BibleWriter( InternalBible ):
             # end of liveCV
 
 
+            def backLink( CV:str ) -> str:
+                """
+                Returns the link to the place where the note is.
+
+                The origin CV in the note itself might be inside a verse bridge.
+                """
+                return f'#C{C}V{V}' if C!='-1' and V not in ('','0') else liveCV( CV )
+            # end of backLink
+
+
             def processNote( rawFootnoteContents, ourGlobals, noteType ):
                 """
                 Return the HTML5 for the processed footnote or endnote.
@@ -1869,7 +1879,7 @@ class BibleWriter( InternalBible ):
                 endHTML5 = '<p id="{}" class="{}">'.format( idName, noteType )
                 if originCV:
                     endHTML5 += '<a class="{}Origin" title="Go back up to {} in the text" href="{}">{}</a> ' \
-                                                        .format( noteType, originCV, liveCV(originCV), origin )
+                                                        .format( noteType, originCV, backLink(originCV), origin )
                 endHTML5 += '<span class="{}Entry">{}</span>'.format( noteType, fnText )
                 endHTML5 += '</p>'
 
@@ -1932,7 +1942,7 @@ class BibleWriter( InternalBible ):
                     originCV = "{}:{}".format( C, V )
                 if originCV: # This only handles CV separator of : so far
                     endHTML5 += '<a class="xrefOrigin" title="Go back up to {} in the text" href="{}">{}</a> ' \
-                                                        .format( originCV, liveCV(originCV), originCV )
+                                                        .format( originCV, backLink(originCV), originCV )
                 endHTML5 += '<span class="xrefEntry">{}</span>'.format( xrefText )
                 endHTML5 += '</p>'
 
@@ -2058,6 +2068,10 @@ class BibleWriter( InternalBible ):
         text = text.replace( '\\sc ', '<span class="smallCaps">' ).replace( '\\sc*', '</span>' )
         text = text.replace( '\\+sc ', '<span class="smallCaps">' ).replace( '\\+sc*', '</span>' )
 
+        # Any other character formatting (using the USFM marker name for the class), e.g., \tl …\tl*
+        text = re.sub( r'\\\+?([a-z][a-z0-9]{0,4})\*', '</span>', text )
+        text = re.sub( r'\\\+?([a-z][a-z0-9]{0,4}) ', r'<span class="\1">', text )
+
         if '\\' in text:
             logger.error( "formatHTMLVerseText programming error: unprocessed code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "formatHTMLVerseText: unprocessed backslash code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
@@ -2138,7 +2152,7 @@ class BibleWriter( InternalBible ):
                 ix = bkList.index( myBBB )
                 if ix > 0:
                     writerObject.writeLineOpenClose( 'a', 'Previous book', [('href',filenameDict[bkList[ix-1]]),('class','bookNav')] )
-                writerObject.writeLineOpenClose( 'a', 'Book start', [('href','#C1V1'),('class','bookNav')] )
+                writerObject.writeLineOpenClose( 'a', 'Book start', [('href','#CS1'),('class','bookNav')] )
                 if ix < len(bkList)-1:
                     writerObject.writeLineOpenClose( 'a', 'Next book', [('href',filenameDict[bkList[ix+1]]),('class','bookNav')] )
             writerObject.writeLineClose( 'header' )
@@ -2320,6 +2334,17 @@ class BibleWriter( InternalBible ):
             # end of liveLocal
 
 
+            def closeLists() -> None:
+                """
+                Close any open list item and list.
+                """
+                nonlocal haveOpenListItem, haveOpenVerse
+                if ( haveOpenListItem or haveOpenList ) and haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
+                if haveOpenList: writerObject.writeLineClose( 'p' ); haveOpenList.clear()
+            # end of closeLists
+
+
             writeHeader( writerObject, BBB )
             haveOpenSection = haveOpenParagraph = haveOpenListItem = haveOpenVerse = False
             haveOpenList = {}
@@ -2340,6 +2365,9 @@ class BibleWriter( InternalBible ):
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C=='-1': V = str( int(V) + 1 )
 
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
+                if not marker.startswith( ('li','ili') ) and marker not in ('c#','v','v~','p~','vp#','nb'): closeLists()
+
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -2400,7 +2428,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'c#':
                     if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toHTML5: have extras at c# at",BBB,C)
                     C = text
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenList:
                         #logger.warning( "toHTML5: Have chapter number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     # Put verse 1 id here on the chapter number (since we don't output a v1 number)
@@ -2414,8 +2442,9 @@ class BibleWriter( InternalBible ):
                     if gotVP: # this is the verse number to be published
                         text = gotVP
                         gotVP = None
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenList:
                         logger.warning( "toHTML5: Have verse number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
+                        writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+V)] ); haveOpenVerse = True
                     if V == '1': # Different treatment for verse 1
                         writerObject.writeLineOpenClose( 'span', ' ', ('class','verseOnePrespace') )
@@ -2451,14 +2480,14 @@ class BibleWriter( InternalBible ):
                     if text: writerObject.writeLineOpenClose( 'p', createSectionCrossReference(text), ('class',rClass), noTextCheck=True )
                 elif marker == 'd': # descriptive title or Hebrew subtitle
                     if text or extras: writerObject.writeLineOpenClose( 'p', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','descriptiveTitle'), noTextCheck=haveExtraFormatting )
+                elif marker == 'qa': # acrostic heading
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    if text or extras: writerObject.writeLineOpenClose( 'p', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','acrosticHeading'), noTextCheck=haveExtraFormatting )
                 elif marker == 'sp': # speaker
                     if text: writerObject.writeLineOpenClose( 'p', text, ('class','speaker') )
                 elif marker in ('p','m','pmo','pm','pmc','pmr','pi1','pi2','pi3','pi4','mi','cls','pc','pr','ph1','ph2','ph3','ph4',) \
                 or marker in ('q1','q2','q3','q4','qr','qc','qm1','qm2','qm3','qm4',):
-                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
-                    if haveOpenList:
-                        for lx in ('4','3','2','1',): # Close any open lists
-                            if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
                     if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
                     if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     writerObject.writeLineOpen( 'p', ('class',pqHTMLClassDict[marker]) ); haveOpenParagraph = True
@@ -2466,10 +2495,16 @@ class BibleWriter( InternalBible ):
                 elif marker in ('li1','li2','li3','li4','ili1','ili2','ili3','ili4',):
                     if marker.startswith('li'): m, pClass, iClass = marker[2], 'list'+marker[2], 'listItem'+marker[2]
                     else: m, pClass, iClass = marker[3], 'introductionList'+marker[3], 'introductionListItem'+marker[3]
-                    if not haveOpenList or m not in haveOpenList or not haveOpenList[m]:
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
+                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    newList = m not in haveOpenList
+                    if newList:
+                        closeLists()
                         writerObject.writeLineOpen( 'p', ('class',pClass) ); haveOpenList[m] = True
                     if marker.startswith('li'):
                         if self.doExtraChecking: assert not text
+                        if not newList: writerObject.writeLineText( ' ' ) # Keep the items of the list apart
                         writerObject.writeLineOpen( 'span', ('class',iClass) ); haveOpenListItem = True
                     elif text: writerObject.writeLineOpenClose( 'span', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class',iClass) )
                 elif marker == 'b':
@@ -2481,13 +2516,14 @@ class BibleWriter( InternalBible ):
                 # Character markers
                 elif marker in ('v~','p~',):
                     #if BibleOrgSysGlobals.debugFlag and marker=='v~': assert haveOpenVerse
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenList:
                         logger.warning( "toHTML5: Have verse text {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
+                    gap = ' ' if marker=='p~' and haveOpenVerse else '' # e.g., after nb
                     if not haveOpenVerse:
                         writerObject.writeLineOpen( 'span', ('class','verse') ); haveOpenVerse = True
                     if text or extras:
-                        writerObject.writeLineOpenClose( 'span', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','verseText'), noTextCheck=True )
+                        writerObject.writeLineOpenClose( 'span', gap+BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','verseText'), noTextCheck=True )
 
                 elif marker in ('nb','cl','vp#',): # These are the markers that we can safely ignore for this export
                     if BibleOrgSysGlobals.debugFlag and marker=='nb': assert not text and not extras
@@ -2500,14 +2536,11 @@ class BibleWriter( InternalBible ):
                         logger.critical( "toHTML5: {} lost extras in {} field in {} {}:{}".format( self.abbreviation, marker, BBB, C, V ) )
                         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
                     unhandledMarkers.add( marker )
-                if extras and marker not in ('v~','p~','s1','s2','s3','s4','d', 'ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex',):
+                if extras and marker not in ('v~','p~','s1','s2','s3','s4','d','qa', 'ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex',):
                     logger.critical( "toHTML5: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
 
-            if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
-            if haveOpenList:
-                for lx in ('4','3','2','1',): # Close any open lists
-                    if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
+            closeLists()
             if haveOpenVerse: writerObject.writeLineClose( 'span' )
             if haveOpenParagraph: writerObject.writeLineClose( 'p' )
             if haveOpenSection: writerObject.writeLineClose( 'section' )
-- 
2.43.0


From 8bd0c387e892dd525abec56a351c09881c2d0373 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 046/187] fix: the TeX export handles endnotes, several notes
 in a text, nested markers and word attributes, and escapes special characters

---
 BibleOrgSys/BibleWriter.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index ce5443c..6dee5a2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9579,29 +9579,33 @@ class BibleWriter( InternalBible ):
             """
             nonlocal unhandledMarkers
 
-            text = givenText
+            text = re.sub( r'(\\\+?w [^\\|]*)\|[^\\]*', r'\1', givenText ) # Remove any attributes from wordlist entries
+
+            for char in '&%$#_{}': # Special characters to TeX
+                text = text.replace( char, '~^~' + char )
+            text = re.sub( r'(?<!~)\^|\^(?!~)', '~^~textasciicircum{}', text )
 
             if '\\fig ' in text: # handle figures
                 #ix = text.find( '\\fig ' )
                 #ixEnd = text.find( '\\fig*' )
                 text = text.replace( '\\fig ', '~^~BibleFigure{' ).replace( '\\fig*', '}' ) # temp
 
-            if '\\f ' in text: # handle footnotes
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'footnote', repr(givenText) )
-                #ix = text.find( '\\f ' )
-                #ixEnd = text.find( '\\f*' )
-                text = text.replace( '\\f ', '~^~BibleFootnote{' ).replace( '\\f*', '}' ) # temp
-                text = text.replace( '\\fr ', '~^~BibleFootnoteAnchor{' ).replace( '\\ft ', '}', 1 ) # temp assumes one fr followed by one ft
-                text = text.replace( '\\fq ', '' ).replace( '\\ft ', '' ).replace( '\\fk ', '' ) # Just remove these ones
-
-            if '\\x ' in text: # handle cross-references
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'xref', repr(givenText) )
-                #ix = text.find( '\\x ' )
-                #ixEnd = text.find( '\\x*' )
-                text = text.replace( '\\x ', '~^~BibleCrossReference{' ).replace( '\\x*', '}' ) # temp
-                text = text.replace( '\\xo ', '~^~BibleCrossReferenceAnchor{' ).replace( '\\xt ', '}' ) # temp assumes one xo followed by one xt
+            def texNote( match ) -> str:
+                '''
+                Given a footnote, endnote or cross-reference,
+                    return the TeX code.
+                '''
+                noteMarker, noteText = match.group(1), match.group(2)
+                texName = 'BibleCrossReference' if noteMarker=='x' else 'BibleFootnote' # used for endnotes also
+                noteText = re.sub( r'\\[fx][a-z]{1,3}\*', '', noteText )
+                noteText = re.sub( r'\\(?:fr|xo) ([^\\]*)', r'~^~'+texName+r'Anchor{\1}', noteText )
+                noteText = re.sub( r'\\[fx][a-z]{1,3} ', '', noteText ) # Just remove the other ones
+                return f'~^~{texName}{{{noteText}}}'
+            # end of texNote
+            text = re.sub( r'\\(f|fe|x) (.*?)\\\1\*', texNote, text )
 
             # Handle regular character formatting — this will cause TeX to fail if closing markers are not matched
+            text = re.sub( r'\\\+([a-z])', r'\\\1', text ) # Nested markers are handled like the others
             for charMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers:
                 fullCharMarker = '\\' + charMarker + ' '
                 if fullCharMarker in text:
-- 
2.43.0


From d3756eac58c02a345e0c4028fa483ca41921ee23 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 047/187] fix: the Markdown export escapes the notes, which it
 writes as HTML

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 6dee5a2..0f30da7 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1415,6 +1415,7 @@ class BibleWriter( InternalBible ):
                     <p id="FNote2" class="footnote"><a title="Go back up to 4:11 in the text" href="#C4V11"><span class="ChapterVerse">4:11 </span></a><a title="ne" href="../../Lexicon/indexLN-90.htm#ne1a"><span class="WordLink">Kene</span></a> <a title="ne" href="../../Lexicon/indexLN-90.htm#ne1a"><span class="WordLink">ne</span></a> <a title="adj. clear" href="../../Lexicon/Details/klaru.htm"><span class="WordLink">klaru</span></a> <a title="diya" href="../../Lexicon/indexLD-80.htm#diyav"><span class="WordLink">diye</span></a> <a title="te" href="../../Lexicon/indexLT-96.htm#ta"><span class="WordLink">te</span></a> <a title="adj. true (lehet)" href="../../Lexicon/Details/lehet1.htm"><span class="WordLink">malehet</span></a> <a title="ne" href="../../Lexicon/indexLN-90.htm#ne1a"><span class="WordLink">ne</span></a> <a title="migpuun" href="../../Lexicon/Details/puun.htm"><span class="WordLink">migpuunan</span></a> <a title="ke" href="../../Lexicon/indexLK-87.htm#ka"><span class="WordLink">ke</span></a> <a title="n. other" href="../../Lexicon/Details/lein.htm"><span class="WordLink">lein</span></a> <a title="e" href="../../Lexicon/indexLA-77.htm#a"><span class="WordLink">e</span></a> <a title="part. also" href="../../Lexicon/Details/degma.htm"><span class="WordLink">degma</span></a> <a title="ne" href="../../Lexicon/indexLN-90.htm#ne1a"><span class="WordLink">ne</span></a> <a title="n. place" href="../../Lexicon/Details/inged.htm"><span class="WordLink">inged</span></a> <a title="ka" href="../../Lexicon/indexLK-87.htm#ka"><span class="WordLink">ka</span></a> <span class="NameWordLink">Iprata</span>. <a title="kahiyen" href="../../Lexicon/Details/kahi.htm"><span class="WordLink">Kahiyen</span></a> <a title="te" href="../../Lexicon/indexLT-96.htm#ta"><span class="WordLink">te</span></a> <a title="adj. other" href="../../Lexicon/Details/duma.htm"><span class="WordLink">duma</span></a> <a title="ne" href="../../Lexicon/indexLN-90.htm#ne1a"><span class="WordLink">ne</span></a> <a title="ka" href="../../Lexicon/indexLK-87.htm#ka"><span class="WordLink">ka</span></a> <span class="NameWordLink">Iprata</span> <a title="dem. that" href="../../Lexicon/Details/iyan.htm"><span class="WordLink">iyan</span></a> <a title="ka" href="../../Lexicon/indexLK-87.htm#ka"><span class="WordLink">ka</span></a> <a title="tapey" href="../../Lexicon/indexLT-96.htm#tapey1"><span class="WordLink">tapey</span></a> <a title="ne" href="../../Lexicon/indexLN-90.htm#ne1a"><span class="WordLink">ne</span></a> <a title="n. name" href="../../Lexicon/Details/ngaran.htm"><span class="WordLink">ngaran</span></a> <a title="te" href="../../Lexicon/indexLT-96.htm#ta"><span class="WordLink">te</span></a> <a title="See glossary entry for Bitlihim" href="../indexGlossary.htm#Bitlihim"><span class="WordLink">Bitlihim</span><span class="GlossaryLinkSymbol"><sup>[gl]</sup></span></a>.</p></div>
                     """
                     assert noteType in ('footnote','endnote',)
+                    rawFootnoteContents = MLWriter.escape_characters( rawFootnoteContents ) # because the notes are written as HTML
                     markerList = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerListFromText( rawFootnoteContents, includeInitialText=True )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "formatMarkdownVerseText.processFootnote( {}, {} ) found {}".format( repr(rawFootnoteContents), ourGlobals, markerList ) )
                     if noteType == 'footnote':
@@ -1502,6 +1503,7 @@ class BibleWriter( InternalBible ):
                         plus
                     <p id="XRef0" class="XRef"><a title="Go back up to 2:2 in the text" href="#C2V2"><span class="ChapterVerse">2:2</span></a> <span class="VernacularCrossReference">Lib 19:9&#x2011;10</span>; <span class="VernacularCrossReference">Diy 24:19</span></p>
                     """
+                    MDxref = MLWriter.escape_characters( MDxref ) # because the notes are written as HTML
                     markerList = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerListFromText( MDxref, includeInitialText=True )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\nformatMarkdownVerseText.processXRef( {}, {} ) gives {}".format( repr(MDxref), "…", markerList ) )
                     xrefIndex = ourGlobals['nextXRefIndex']; ourGlobals['nextXRefIndex'] += 1
-- 
2.43.0


From e7201f1f31bec189f9fcea557f3dfff26a70bb48 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 048/187] fix: a pickled Bible with one or two books, or one
 level down, can be loaded

---
 BibleOrgSys/Formats/PickledBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7caa927..ea6ef19 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -167,6 +167,7 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
                     if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
                         foundSubfiles.append( something )
                         numFound += 1
+                        foundProjects.append( tryFolderName )
         except PermissionError: pass # can't read folder, e.g., system folder
 
     # See if there's an Pickle Bible here in this folder
@@ -726,7 +727,7 @@ class PickledBible( Bible ):
             logging.critical( "PickledBible.loadBooks() failed" )
             return
 
-        if len( self.pickleVersionData['bookList'] ) > 2:
+        if self.pickleVersionData['bookList']:
             if BibleOrgSysGlobals.maxProcesses > 1 \
             and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
                 # Load all the books as quickly as possible
-- 
2.43.0


From 8691da9b8fff3f51bac33cf9f5183b233bbb9af6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 049/187] fix: BCV folders can be loaded again and their
 archive holds the verse files

---
 BibleOrgSys/BibleWriter.py                 | 10 ++++++----
 BibleOrgSys/Formats/BCVBible.py            | 19 ++++++++++---------
 BibleOrgSys/Internals/InternalBibleBook.py |  2 +-
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 0f30da7..a4799f2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -520,10 +520,12 @@ class BibleWriter( InternalBible ):
         # Now create a zipped collection (for easier download)
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping BCV files…" )
         zf = zipfile.ZipFile( os.path.join( outputFolderpath, 'AllFiles.zip' ), 'w', compression=zipfile.ZIP_DEFLATED )
-        for filename in os.listdir( outputFolderpath ):
-            if not filename.endswith( '.zip' ):
-                filepath = os.path.join( outputFolderpath, filename )
-                zf.write( filepath, filename ) # Save in the archive without the path
+        for folderpath, folders, filenames in os.walk( outputFolderpath ): # The verse files are in one folder per book
+            folders.sort()
+            for filename in sorted( filenames ):
+                if not filename.endswith( '.zip' ):
+                    filepath = os.path.join( folderpath, filename )
+                    zf.write( filepath, os.path.relpath( filepath, outputFolderpath ) ) # Save in the archive without the full path
         zf.close()
 
         if BibleOrgSysGlobals.maxProcesses > 1:
diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index ce47eb2..79ff171 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -40,7 +40,7 @@ if __name__ == '__main__':
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint, LARGE_DUMMY_VALUE
 from BibleOrgSys.Bible import Bible, BibleBook
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList, InternalBibleEntry
+from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_NESTING_MARKERS, InternalBibleEntryList, InternalBibleEntry
 
 
 LAST_MODIFIED_DATE = '2022-07-03' # by RJH
@@ -148,6 +148,7 @@ def BCVBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
         # See if there's an BCV Bible here in this folder
         if METADATA_FILENAME in foundSubfiles:
             numFound += 1
+            foundProjects.append( tryFolderName )
             if strictCheck:
                 for folderName in foundSubfolders:
                     if folderName not in BibleOrgSysGlobals.loadedBibleBooksCodes:
@@ -518,21 +519,21 @@ class BCVBibleBook( BibleBook ):
                 filename = self.BBB+'_C'+C+'V'+V+'.txt'
             else:
                 assert CV == ('-1',)
-                C = V = '-1', '0'
+                C, V = '-1', '0'
                 filename = self.BBB+'__Intro.txt'
             with open( os.path.join( self.sourceFolder, filename ), 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
                 for line in myFile:
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( filename ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
                     assert line and line[0]=='\\'
-                    ixEQ = line.find( '=' )
+                    ixEQ = line.find( '=', 3 if line.startswith( '\\v=<<' ) else 0 ) # Our v= marker also contains an equals sign
                     ixLL = line.find( '<<' )
                     if ixEQ == -1: ixEQ = LARGE_DUMMY_VALUE
-                    if ixLL == -1: ixLL = LARGE_DUMMY_VALUE
+                    if ixLL == -1 or ixLL > ixEQ: ixLL = LARGE_DUMMY_VALUE # (It might also be in the text)
                     ix = min( ixEQ, ixLL )
                     marker = line[1:ix]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'marker', repr(marker) )
@@ -546,13 +547,13 @@ class BCVBibleBook( BibleBook ):
                     else: text = line[ixEQ+1:]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'text', repr(text) )
 
-                    if marker[0] == '¬':
-                        assert originalMarker is None and text is None
-                        adjText = extras = None
+                    if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS \
+                    or (marker == 'iot' and text is None): # It's a marker that was added
+                        adjText, cleanText, extras, text = None, '' if text is None else text, None, None
                     else:
                         if originalMarker is None: originalMarker = marker
                         if text is None: text = ''
-                        adjText, cleanText, extras = self.processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
+                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
                     self._processedLines.append( InternalBibleEntry(marker, originalMarker, adjText, cleanText, extras, text) )
 
             #if loadErrors: self.checkResultsDictionary['Load Errors'] = loadErrors
diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index e29b5a4..95e81c7 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5331,7 +5331,7 @@ class InternalBibleBook:
                 line = '\\'+marker
                 if originalMarker and originalMarker!=marker and (marker,originalMarker) not in (('c#','c'),('v~','v')):
                     line += '<<'+originalMarker
-                content = entry.getOriginalText()
+                content = entry.getCleanText() if originalMarker is None else entry.getOriginalText()
                 if content: line += '='+content
                 line += '\n'
                 if C == '-1':
-- 
2.43.0


From ecdc31defa1d9ef0b21b0e97bad67baf121e4b53 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 050/187] fix: the BibleDoor sections escape their text, and
 keep acrostic headings

---
 BibleOrgSys/BibleWriter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index a4799f2..3fb342d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3278,6 +3278,7 @@ class BibleWriter( InternalBible ):
 
                 sectionBBB, sectionC, sectionV = BCV
                 numBDSections += 1
+                sectionHTML = sectionHTML.replace( '^', '&#94;' ) # because that character is used for the compression
                 #if BBB == 'GLS': vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, sectionHTML ); halt
                 if '\\' in sectionHTML: # shouldn't happen
                     ix = sectionHTML.index( '\\' )
@@ -3346,6 +3347,8 @@ class BibleWriter( InternalBible ):
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
                     if C=='-1': V = str( int(V) + 1 )
 
+                if text or extras: text, extras = MLWriter.escape_characters_with_extras( text, extras )
+
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -3547,6 +3550,11 @@ class BibleWriter( InternalBible ):
                 elif marker == 'd': # descriptive title or Hebrew subtitle
                     if text or extras:
                         thisHTML = '<p class="descriptiveTitle">{}</p>'.format( BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, BDGlobals ) )
+                elif marker == 'qa': # acrostic heading
+                    if vOpen: lastHTML += '</span>'; vOpen = False
+                    if pOpen: lastHTML += '</p>'; pOpen = False
+                    if text or extras:
+                        thisHTML = '<p class="acrosticHeading">{}</p>'.format( BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, BDGlobals ) )
                 elif marker == 'sp': # speaker
                     thisHTML = '<p class="speaker">{}</p>'.format( text )
 
@@ -3581,6 +3589,7 @@ class BibleWriter( InternalBible ):
                     if text or extras:
                         if not vOpen:
                             thisHTML += '<span class="verse" id="{}">'.format( 'C'+C+'V'+V+'b' ); vOpen = True
+                        elif marker == 'p~': thisHTML += ' ' # e.g., after nb
                         thisHTML += '<span class="verseText">{}</span>'.format( BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, BDGlobals ) )
                     sJustOpened = False
                 elif marker in ('li1','li2','li3','li4','ili1','ili2','ili3','ili4',):
@@ -3629,7 +3638,7 @@ class BibleWriter( InternalBible ):
                         logger.critical( "_toBibleDoorJSONCHTML: {} lost extras in {} field in {} {}:{}".format( self.abbreviation, marker, BBB, C, V ) )
                         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
                     unhandledMarkers.add( marker )
-                if extras and marker not in ('v~','p~','s1','s2','s3','s4','d', 'ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex',):
+                if extras and marker not in ('v~','p~','s1','s2','s3','s4','d','qa', 'ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex',):
                     logger.critical( "_toBibleDoorJSONCHTML: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
 
-- 
2.43.0


From 36e6be912d008a17c773040e5fcfd2997067ec3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 051/187] fix: the BibleDoor text starts a paragraph before a
 chapter or verse number that follows a heading

---
 BibleOrgSys/BibleWriter.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 3fb342d..06da712 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2682,7 +2682,7 @@ class BibleWriter( InternalBible ):
                 and the bookText (concatenated sections of text)
                 plus various variables ready for the next section.
             """
-            nonlocal bookText, savedC, savedV, savedText, currentText, sectionCV
+            nonlocal bookText, savedC, savedV, savedText, currentText, currentParagraphMarker, sectionCV
 
             if self.doExtraChecking:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"After {self.abbreviation} {BBB} {C}:{V} '{pseudoMarker}': saving index entry {savedC}:{savedV}—{lastC}:{lastV} @ {len(bookText):,} with sectionCV={sectionCV}" )
@@ -2711,6 +2711,7 @@ class BibleWriter( InternalBible ):
         paragraphMarkers = USFM_ALL_TITLE_MARKERS + USFM_ALL_SECTION_HEADING_MARKERS \
                                 + USFM_ALL_BIBLE_PARAGRAPH_MARKERS \
                                 + ('r','d','ms1','mr','sr','sp','ib','b','nb','cl¤','tr')
+        headingMarkers = USFM_ALL_TITLE_MARKERS + USFM_ALL_SECTION_HEADING_MARKERS + ('r','d','ms1','mr','sr','sp')
         for BBB,bookObject in self.books.items():
             try: haveSectionHeadingsForBook = self.discoveryResults[BBB]['haveSectionHeadings']
             except AttributeError: haveSectionHeadingsForBook = False
@@ -2783,10 +2784,12 @@ class BibleWriter( InternalBible ):
                         savedC, savedV = C, V
                         sectionCV = f'{C}v{V}'
                 elif pseudoMarker == 'c#':
-                    if currentParagraphMarker in ('','s1','r'):
+                    if not currentParagraphMarker or currentParagraphMarker in headingMarkers:
                         logger.critical( f"_toBibleDoorText {self.abbreviation} {BBB} encountered a paragraph error"
                                          f" with a verse following {currentParagraphMarker!r} around {C}:{V}" )
+                        if currentText: currentText += '\n'
                         currentText += 'm{}'.format( paragraphDelimiter ) # Put in a margin paragraph
+                        currentParagraphMarker = 'm'
                     currentText += f'{{c{cleanText}}}'
                 elif pseudoMarker in ('v=','v'): # v= precedes the following section heading, etc.
                     if C=='I': C = '1' # Some single chapter books don't have a chapter one marker
@@ -2795,6 +2798,12 @@ class BibleWriter( InternalBible ):
                     elif '–' in V: V = V[:V.index('–')] # en dash
                     if pseudoMarker == 'v': # only (not v=)
                         lastC, lastV = C, V
+                        if not currentParagraphMarker or currentParagraphMarker in headingMarkers:
+                            logger.warning( "_toBibleDoorText {} {} encountered a paragraph error with a verse following {!r} around {}:{}" \
+                                                        .format( self.abbreviation, BBB, currentParagraphMarker, C, V ) )
+                            if currentText: currentText += '\n'
+                            currentText += 'm{}'.format( paragraphDelimiter ) # Put in a margin paragraph
+                            currentParagraphMarker = 'm'
                         currentText += '{{v{}}}'.format( cleanText ) # ignores footnotes on verse numbers
                 elif pseudoMarker in paragraphMarkers:
                     if pseudoMarker == 's1':
@@ -2807,15 +2816,11 @@ class BibleWriter( InternalBible ):
                 elif pseudoMarker == 'v~':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Ooops {!r} {!r} {!r}".format( pseudoMarker, currentText[-4:], currentParagraphMarker ) )
                     assert currentText[-1] == '}' # Verse marker
-                    if currentParagraphMarker in ('','s1','r'):
-                        logger.warning( "_toBibleDoorText {} {} encountered a paragraph error with a verse following {!r} around {}:{}" \
-                                                    .format( self.abbreviation, BBB, currentParagraphMarker, C, V ) )
-                        currentText += 'm{}'.format( paragraphDelimiter ) # Put in a margin paragraph
                     currentText += fullText
                 elif pseudoMarker == 'p~':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Ooops", repr(currentText[-4:]) )
                     assert currentText[-1] == paragraphDelimiter
-                    assert currentParagraphMarker not in ('','s1','r')
+                    assert currentParagraphMarker and currentParagraphMarker not in headingMarkers
                     currentText += fullText
                 else:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'BDText3 remainder!', BBB, pseudoMarker, repr(fullText) )
-- 
2.43.0


From 8fd66fd546dfd4eb7ce8ff615fbd940f65f94e54 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 052/187] fix: a pickled Bible written with a higher data level
 can be loaded

---
 BibleOrgSys/Formats/PickledBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index ea6ef19..9021add 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -358,7 +358,7 @@ def _loadObjectAttributes( pickleFileObject, BibleObject ):
         attributeValue = pickle.load( pickleFileObject )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Attribute {attributeName}='{attributeValue}' {type(attributeValue)}" )
         assert attributeValue is None \
-            or isinstance( attributeValue, (str,bool,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
+            or isinstance( attributeValue, (str,bool,int,list,set,dict,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
         if attributeName == 'objectNameString': attributeName = 'originalObjectNameString'
         elif attributeName == 'objectTypeString': attributeName = 'originalObjectTypeString'
         # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attribute: {} = {}".format( attributeName, attributeValue if attributeName!='discoveryResults' else '…' ) )
@@ -386,7 +386,7 @@ def _getObjectAttributesDict( pickleFileObject, selected=None ):
         attributeValue = pickle.load( pickleFileObject )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Attribute {}={}".format( attributeName, attributeValue ) )
         assert attributeValue is None \
-            or isinstance( attributeValue, (str,bool,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
+            or isinstance( attributeValue, (str,bool,int,list,set,dict,Path,InternalBibleBookCVIndex,InternalBibleBookSectionIndex,InternalBibleEntryList) ) # Leave these asserts enabled for security
         if attributeName == 'objectNameString': attributeName = 'originalObjectNameString'
         elif attributeName == 'objectTypeString': attributeName = 'originalObjectTypeString'
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attribute: {} = {}".format( attributeName, attributeValue if attributeName!='discoveryResults' else '…' ) )
-- 
2.43.0


From 19728a96d57a963a52cdadcf01915385f077a1e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 053/187] fix: verse keys with different word indexes are not
 equal

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..843b218 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -248,7 +248,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
-- 
2.43.0


From 28eb1c3156d8ae5df5399afa2b32db02abfb5638 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 054/187] fix: verse keys of books P4D, A2Z, A2J and H2C can be
 parsed

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 843b218..d741d67 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -109,7 +109,7 @@ DEBUGGING_THIS_MODULE = False
 #
 #       All metacharacters (which must be escaped to search for literals): . ^ $ * + ? { } [ ] \ | ( )
 #
-BBB_RE = '([A-PR-XZ][A-EG-VX-Z1][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
+BBB_RE = '([A-PR-XZ][A-EG-VX-Z124][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
 C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199 (doesn't handle chapters -1 or 0)
 V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199 (doesn't handle verse 0)
 S_RE = '!([a-d]?)'
-- 
2.43.0


From b3b845df18b27e3456e273c3a89a9d98cb06193a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 055/187] fix: lists of 6, 8 and 9 verses use the right match
 groups

---
 BibleOrgSys/Reference/VerseReferences.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index d741d67..6c7ae9b 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -605,7 +605,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -656,9 +656,9 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -685,10 +685,10 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
-            V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
+            V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
-- 
2.43.0


From 04a84384704373b28897d2df9505e3a0b789c486 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 056/187] fix: a range of parts of one verse ends

---
 BibleOrgSys/Reference/VerseReferences.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 6c7ae9b..46bdfd7 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -890,7 +890,13 @@ class VerseRangeKey():
             if BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Expanding range from {} to {}…".format( self.rangeStart.getShortText(), self.rangeEnd.getShortText() ) )
             assert int(V2)>int(V1) or S2!=S1
-            while True:
+            if V1 == V2: # It's a range of parts of the one verse, e.g., 5!a-5!c
+                if S1 and S2:
+                    for partNumber in range( ord(S1)+1, ord(S2) ):
+                        self.verseKeysList.append( SimpleVerseKey( BBB, C, V1, chr(partNumber) ) )
+                self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
+            else: assert int(V2)>int(V1)
+            while V1 != V2:
                 V = str( int(V) + 1 )
                 if V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
-- 
2.43.0


From f15856376c2e9d4cc4e504fdf11883a39ee8ce06 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 057/187] fix: text of mixed verses key can be parsed again

---
 BibleOrgSys/Reference/VerseReferences.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 46bdfd7..8efb09d 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -1078,15 +1078,12 @@ class FlexibleVersesKey():
 
 
     def getVerseKeyText( self ):
-        if self.keyType=='V-V,V':
-            vRange, vSingle = self.verseKeyObjectList[0], self.verseKeyObjectList[1]
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here", vRange, vSingle, "'{},{}'".format( vRange.getVerseKeyText(), vSingle.getVerseNumber() ) )
-            S = vSingle.getVerseSuffix()
-            return '{},{}{}{}'.format( vRange.getVerseKeyText(), vSingle.getVerseNumber(), '!' if S else '', S )
         resultText = ''
         for verseKeyObject in self.verseKeyObjectList:
-            if resultText: resultText += ', '
-            resultText += verseKeyObject.getVerseKeyText()
+            verseKeyText = verseKeyObject.getVerseKeyText()
+            if resultText: # The following parts are all in the same chapter
+                resultText += ',' + verseKeyText.split( ':', 1 )[1]
+            else: resultText = verseKeyText
         return resultText
 
 
-- 
2.43.0


From db31e83b1e7e027d4c5bcaa449c08d84e09f67ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 058/187] fix: book names of several words in typed references

---
 BibleOrgSys/Reference/BibleReferences.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..ce09fa8 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -240,7 +240,7 @@ class BibleSingleReference( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn:].lstrip()[:1].isalpha(): # Don't seem to have a valid (or complete, e.g., Song of Solomon) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -452,7 +452,7 @@ class BibleSingleReferences( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn:].lstrip()[:1].isalpha(): # Don't seem to have a valid (or complete, e.g., Song of Solomon) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -598,6 +598,8 @@ class BibleSingleReferences( BibleReferenceBase ):
                     if char in self.punctuationDict['chapterVerseSeparator'] and temp and temp.isdigit(): # Assume it's a follow on chapter number
                         C = temp
                         status = 3 # Now get the verse number
+                    elif char==' ' and adjustedReferenceString[nn:].lstrip()[:1].isalpha(): # Don't have all of the bookname yet
+                        temp += char
                     elif char in self.punctuationDict['bookChapterSeparator']:
                         bookNameOrAbbreviation = temp
                         BBB = self.getBBBFromText( bookNameOrAbbreviation )
@@ -830,7 +832,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         continue
                 elif bookNameOrAbbreviation and char == ' ': # Could be something like 1 Cor
                     BBB = self.getBBBFromText( bookNameOrAbbreviation )
-                    if BBB is None: # Don't seem to have a valid bookname yet
+                    if BBB is None or adjustedReferenceString[nn:].lstrip()[:1].isalpha(): # Don't seem to have a valid (or complete, e.g., Song of Solomon) bookname yet
                         bookNameOrAbbreviation += char
                     else: # we have a valid bookname
                         status = 2 # Start getting the chapter number
@@ -1022,6 +1024,9 @@ class BibleReferenceList( BibleReferenceBase ):
                         C = temp
                         status = 3 # Now get the verse number
                     elif char in self.punctuationDict['bookChapterSeparator']: # but this is often a space which also occurs in things like 1 Thess
+                        if char==' ' and adjustedReferenceString[nn:].lstrip()[:1].isalpha(): # Don't have all of the bookname yet
+                            temp += char
+                            continue
                         BBB = self.getBBBFromText( temp )
                         if BBB is not None: # Must have found a bookname
                             bookNameOrAbbreviation = temp
-- 
2.43.0


From 0c282044e5c2475ffad3f9b0d7dee232422d2a48 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 059/187] fix: a verse suffix in a reference list stays with
 its verse

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index ce09fa8..abd3e24 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -960,7 +960,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     V, S = '', ''
                 elif V and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReference( BBB, C, V, S, self.referenceList )
-                    V = ''
+                    V, S = '', ''
                     if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
                         temp, spaceCount = '', 0
                         status = 4 # We don't know what to expect next
-- 
2.43.0


From f40a4fb3f69c4a543a4f66c80e903c50e60db3c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 060/187] fix: last chapter of a reference list is kept

---
 BibleOrgSys/Reference/BibleReferences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index abd3e24..e5c5b12 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1197,6 +1197,11 @@ class BibleReferenceList( BibleReferenceBase ):
                 status = 9
         elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
+        elif status==4 and temp.isdigit(): # Ended with another entire chapter (like Gen. 3:5; 4) or with another verse of a single chapter book
+            if self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): C, V, S = '1', temp, ''
+            else: C, V, S = temp, '', ''
+            saveReference( BBB, C, V, S, self.referenceList )
+            status = 9
         elif status==4: # Must have ended with a separator character
             logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
             haveWarnings = True
-- 
2.43.0


From 1a04b18788c4df69e4a0eb7d64d6b66914de6c29 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 061/187] fix: book names with hyphens in typed references

---
 BibleOrgSys/Reference/BibleReferences.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index e5c5b12..58ae004 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -225,7 +225,7 @@ class BibleSingleReference( BibleReferenceBase ):
             #if referenceString.startswith('Num 22'):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  BSR status: {}:{} -- got {!r}".format(status, statusList[status],char), haveErrors, haveWarnings )
             if status == 0: # Getting bookname (with or without punctuation after book abbreviation)
-                if char.isalnum(): # doesn't include spaces
+                if char.isalnum() or (char=='-' and bookNameOrAbbreviation): # doesn't include spaces (but book names can contain hyphens)
                     if char.isdigit() and bookNameOrAbbreviation: # Could this be the chapter number?
                         BBB = self.getBBBFromText( bookNameOrAbbreviation )
                         if BBB is None: # Don't seem to have a valid bookname yet
@@ -438,7 +438,7 @@ class BibleSingleReferences( BibleReferenceBase ):
             #if referenceString.startswith('Num 22'):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  BSRs status: {}:{} -- got {!r}".format(status, statusList[status],char), haveErrors, haveWarnings )
             if status == 0: # Getting bookname (with or without punctuation after book abbreviation)
-                if char.isalnum(): # doesn't include spaces
+                if char.isalnum() or (char=='-' and bookNameOrAbbreviation): # doesn't include spaces (but book names can contain hyphens)
                     if char.isdigit() and bookNameOrAbbreviation: # Could this be the chapter number?
                         BBB = self.getBBBFromText( bookNameOrAbbreviation )
                         if BBB is None: # Don't seem to have a valid bookname yet
@@ -576,7 +576,7 @@ class BibleSingleReferences( BibleReferenceBase ):
                         logging.warning( _("Extra space(s) after chapter or book separator in {} Bible reference {!r}").format( BBB, referenceString ) )
                         haveWarnings = True
                     spaceCount += 1
-                elif char.isalnum():
+                elif char.isalnum() or (char=='-' and temp):
                     temp += char
                 elif 'punctuationAfterBookAbbreviation' in self.punctuationDict and char in self.punctuationDict['punctuationAfterBookAbbreviation']:
                     bookNameOrAbbreviation = temp
@@ -818,7 +818,7 @@ class BibleReferenceList( BibleReferenceBase ):
                 #if referenceString.startswith('Num 22'):
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  BRL status: {}:{} -- got {!r}".format(status, statusList[status],char), haveErrors, haveWarnings, self.referenceList, BBB )
             if status == 0: # Getting bookname (with or without punctuation after book abbreviation)
-                if char.isalnum(): # doesn't include spaces
+                if char.isalnum() or (char=='-' and bookNameOrAbbreviation): # doesn't include spaces (but book names can contain hyphens)
                     if char.isdigit() and bookNameOrAbbreviation: # Could this be the chapter number?
                         BBB = self.getBBBFromText( bookNameOrAbbreviation )
                         if BBB is None: # Don't seem to have a valid bookname yet
@@ -1001,7 +1001,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         logging.warning( _("Extra space(s) after chapter or book separator at position {} in {} Bible reference {!r}").format( nnn, BBB, referenceString ) )
                         haveWarnings = True
                     spaceCount += 1
-                elif char.isalnum():
+                elif char.isalnum() or (char=='-' and temp):
                     temp += char
                 elif 'punctuationAfterBookAbbreviation' in self.punctuationDict and char in self.punctuationDict['punctuationAfterBookAbbreviation']:
                     bookNameOrAbbreviation = temp
@@ -1658,7 +1658,7 @@ class BibleAnchorReference:
                         logging.warning( _("Extra space(s) after chapter or book separator at position {} in {} Bible reference {!r}{}").format( nnn, self.BBB, anchorString, '' if location is None else " at {}".format(location) ) )
                         haveWarnings = True
                     spaceCount += 1
-                elif char.isalnum():
+                elif char.isalnum() or (char=='-' and temp):
                     temp += char
                 else:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Char is {!r}, Temp is {!r}".format(char,temp) )
-- 
2.43.0


From d207df23bbf70531e31c73943319214e18ece936 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 062/187] fix: a book can follow a single chapter book in a
 reference list

---
 BibleOrgSys/Reference/BibleReferences.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 58ae004..02f39e8 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -931,8 +931,12 @@ class BibleReferenceList( BibleReferenceBase ):
                         status = 3 # Get the next verse number
                     elif char in self.punctuationDict['bookSeparator']:
                         saveReference( BBB, C, V, S, self.referenceList )
-                        BBB, C = None, ''
-                        status = 0
+                        if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
+                            temp, spaceCount = '', 0
+                            status = 4 # We don't know what to expect next
+                        else:
+                            bookNameOrAbbreviation, BBB, C = '', None, ''
+                            status = 0
                     elif char in self.punctuationDict['verseBridgeCharacter']:
                         saveStartReference( BBB, C, V, S )
                         status = 8 # Getting verse range
-- 
2.43.0


From 1d50175b44fe322d46b277c14c514ec5af06d968 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 063/187] fix: getBBBFromOSISAbbreviation gives one book for
 shared OSIS codes

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..4e28d36 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -387,11 +387,12 @@ class BibleBooksCodes:
         Also tries the Sword book codes unless strict is set to True.
         """
         if strict:
-            return self.__DataDicts['OSISAbbreviationDict'][osisAbbreviation.upper()][1]
-        # else: # not strict
-        try: return self.__DataDicts['OSISAbbreviationDict'][osisAbbreviation.upper()][1]
-        except KeyError: # Maybe Sword has an informal abbreviation???
-            return self.__DataDicts['SwordAbbreviationDict'][osisAbbreviation.upper()][1]
+            result = self.__DataDicts['OSISAbbreviationDict'][osisAbbreviation.upper()][1] # Can be a string or a list
+        else: # not strict
+            try: result = self.__DataDicts['OSISAbbreviationDict'][osisAbbreviation.upper()][1]
+            except KeyError: # Maybe Sword has an informal abbreviation???
+                result = self.__DataDicts['SwordAbbreviationDict'][osisAbbreviation.upper()][1]
+        return result if isinstance( result, str ) else result[0] # Assume that the first entry is the best pick
 
 
     def getBBBFromUSFMAbbreviation( self, USFMAbbreviation:str, strict:bool=False ) -> str:
-- 
2.43.0


From c89bf8203853d8491026186ac0c249a3831f0f6d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 064/187] fix: getBBBFromDrupalBibleCode gives one book for
 shared codes

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index 4e28d36..71d3746 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -419,7 +419,8 @@ class BibleBooksCodes:
         """
         Return the reference abbreviation string for the given DrupalBible book code string.
         """
-        return self.__DataDicts['DrupalBibleAbbreviationDict'][DrupalBibleCode.upper()][1]
+        result = self.__DataDicts['DrupalBibleAbbreviationDict'][DrupalBibleCode.upper()][1] # Can be a string or a list
+        return result if isinstance( result, str ) else result[0] # Assume that the first entry is the best pick
     # end of BibleBooksCodes.getBBBFromDrupalBibleCode
 
 
-- 
2.43.0


From 88f2c81851e927e856057a58e1820c780a45da01 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 065/187] fix: sorting of references in Psalms and with verse
 suffixes

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index 71d3746..7938979 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -718,23 +718,22 @@ class BibleBooksCodes:
             S = ''
         except:
             BBB, C, V, S = BCVReferenceTuple
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BCVReferenceTuple ); halt # Need to finish handling BCVReferenceTuple
         result = self.getReferenceNumber( BBB )
 
         try:
             intC = int( C )
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(C) ); halt # Need to finish handling C
-        result = result * 100 + intC
+        result = result * 1000 + intC # Psalms has 150 chapters
 
         try:
             intV = int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
-        result = result * 150 + intV
+        result = result * 1000 + intV # Psalm 119 has 176 verses
 
         try:
-            intS = {'a':0, 'b':1}[S.lower()] if S else 0
+            intS = 'abcdefghi'.index( S.lower() ) if S else 0
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(S) ); halt # Need to finish handling S
         result = result * 10 + intS
-- 
2.43.0


From b80ae3b97093b2ef1406b30f016e8423f2069612 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 066/187] fix: an OSIS reference to a book which isn't there is
 refused

---
 BibleOrgSys/Reference/BibleReferences.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 02f39e8..9896235 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1272,16 +1272,22 @@ class BibleReferenceList( BibleReferenceBase ):
         """
         # Set things up for OSIS system e.g., 1Cor.3.5-1Cor.3.9
         self.punctuationDict = {'booknameCase': 'M', 'booknameLength': 'M', 'spaceAllowedAfterBCS': 'N', 'punctuationAfterBookAbbreviation': '', 'chapterVerseSeparator': '.', 'bookChapterSeparator': '.', 'chapterSeparator': ';', 'bookBridgeCharacter': '-', 'chapterBridgeCharacter': '-', 'verseBridgeCharacter': '-', 'bookSeparator': ';', 'verseSeparator': ',', 'allowedVerseSuffixes': ''}
-        OSISList = BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes()
-        #self.getBBBFromText = lambda s: BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation(s)
-        self.getBBBFromText = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation
+        def getBBBFromOSISText( OSISText:str ) -> str|None:
+            """ Returns None (like the normal function) if the book is unknown or not in this system. """
+            try: BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( OSISText )
+            except KeyError: return None
+            return BBB if self._BibleOrganisationalSystem.containsBook( BBB ) else None
+        # end of getBBBFromOSISText
+        savedGetBookNameFunction = self.getBookNameFunction
+        self.getBBBFromText = getBBBFromOSISText
+        self.getBookNameFunction = BibleOrgSysGlobals.loadedBibleBooksCodes.getOSISAbbreviation
 
         # Now do the actual parsing using the standard routine
-        sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
-
-        # Set things up again how they were
-        self.punctuationDict = self._BibleOrganisationalSystem.getPunctuationDict()
-        self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book by name
+        try: sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
+        finally: # Set things up again how they were
+            self.punctuationDict = self._BibleOrganisationalSystem.getPunctuationDict()
+            self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book by name
+            self.getBookNameFunction = savedGetBookNameFunction
 
         return sucessFlag, haveWarnings, resultList
     # end of BibleReferenceList.parseOSISReferenceString
-- 
2.43.0


From b7000ec06714a7bd26acbacb0925a4f6b5851e00 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 067/187] fix: expand references over several books from the
 first verse of each

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..556eca0 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -913,18 +913,19 @@ class BibleVersificationSystem:
                 Clast = self.getNumChapters( BBB )
                 if Clast is None: # This book didn't have any chapter info in the versification scheme  :(
                     logging.critical( "Book {} didn't have chapter information for expanding range {} to {}".format( BBB, startRef, endRef ) )
-                    break
+                    BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
+                    continue
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    here2 in expandCVRange:", BBB, Cfirst, Clast )
                 for Cint in range( Cfirst, Clast+1 ):
                     Vlast = self.getNumVerses( BBB, str(Cint) )
                     if Cint==Cfirst: # We're on the first chapter
-                        startVint = V1int
+                        startVint = Vfirst
                         endVint = Vlast
                     else: # It's not the first chapter
                         startVint = 1
                         endVint = Vlast
                     for Vint in range( startVint, endVint+1 ):
-                        if Cint==C1int and Vint==V1int: S = S1
+                        if BBB==BBB1 and Cint==C1int and Vint==V1int: S = S1
                         else: S = ''
                         resultList.append( (BBB, str(Cint), str(Vint), S,) )
                 BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
-- 
2.43.0


From 1613e2c36c055bd3e36a3ad2b083e26d4853ad1c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 068/187] fix: leave omitted verses out of expanded ranges

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 556eca0..94404e4 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -941,6 +941,7 @@ class BibleVersificationSystem:
                     else: S = ''
                     resultList.append( (BBB2, str(Cint), str(Vint), S,) )
 
+        resultList = [ref for ref in resultList if not self.isOmittedVerse( ref )] # Only want the valid references
         vPrint( 'Never', DEBUGGING_THIS_MODULE, startRef, endRef, resultList, haveErrors, haveWarnings )
         return resultList #, haveErrors, haveWarnings
     # end of BibleVersificationSystem.expandCVRange
-- 
2.43.0


From 646a666f42051ca7e22309ed0131d8508b54a431 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 069/187] fix: no KeyError for the omitted verses of a book
 without them

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 94404e4..588920f 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -777,7 +777,7 @@ class BibleVersificationSystem:
         """ Returns a list of (C,V) tuples noting omitted verses in the given book.
 
         If fullRefs are requested, the list consists of (BBB,C,V) tuples instead. """
-        if fullRefs:
+        if fullRefs and BBB in self.__omittedVersesDict:
             return [(BBB,C,V) for (C,V) in self.__omittedVersesDict[BBB]]
         # else
         try: return self.__omittedVersesDict[BBB]
-- 
2.43.0


From d9619b9ab378856415bae759648c62eeca6c0d7c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 070/187] fix: number verses absolutely per organisational
 system

---
 .../Reference/BibleOrganisationalSystems.py   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..b2dd81d 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -532,20 +532,22 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
+    __absoluteVerseDict = None # Each system has its own
     def __makeAbsoluteVerseList( self ):
         """
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {}
         accumulatedCount = 0
         for BBB in self.getBookList():
+            if not BibleVersificationSystem.__contains__( self, BBB ): continue # No chapter and verse information for this book
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                self.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -558,9 +560,11 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
 
         Returns None for invalid or missing values.
         """
-        C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        try: C, V = int(C), int(V)
+        except (TypeError,ValueError): return None
+        if self.__absoluteVerseDict is None: self.__makeAbsoluteVerseList()
+        if (BBB,C) not in self.__absoluteVerseDict: return None
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +580,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if self.__absoluteVerseDict is None: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
-- 
2.43.0


From 2b1b3acb85d2bc094c49f6a15121e300ed2fba66 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 071/187] fix: alternative book is one of the system

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index b2dd81d..4b02796 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -477,8 +477,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         """
         if self.containsBook( BBB ): return BBB
         # else
-        # temp …. needs a try/except
-        return BibleOrgSysGlobals.loadedBibleBooksCodes.getPossibleAlternativeBooksCodes( BBB )[0]
+        for altBBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getPossibleAlternativeBooksCodes( BBB ) or []:
+            if self.containsBook( altBBB ): return altBBB
     # end of BibleOrganisationalSystem.getAlternativeBBBIfNecessary
 
 
-- 
2.43.0


From 671e181d44a87ec636345de68fb510cd23db1b22 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 072/187] fix: create organisational systems without a known
 book order

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 4b02796..ff52536 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -318,9 +318,11 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         punctuationSystemName = self.getOrganisationalSystemValue( 'punctuationSystem' )
         booksNamesSystemName = self.getOrganisationalSystemValue( 'booksNamesSystem' )
         dPrint( 'Never', DEBUGGING_THIS_MODULE, "Got organisation bits: BOS={}, VS={}, PS={}, BNS={}".format( bookOrderSystemName, versificationSystemName, punctuationSystemName, booksNamesSystemName ) )
+        haveBookOrder = False
         if bookOrderSystemName and bookOrderSystemName!='None' and bookOrderSystemName!='Unknown':
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Uses {!r} book order system".format( bookOrderSystemName ) )
             BibleBookOrderSystem.__init__( self, bookOrderSystemName )
+            haveBookOrder = BibleBookOrderSystem.getBookOrderList( self ) is not None # It's None for an unknown system
         if versificationSystemName and versificationSystemName!='None' and versificationSystemName!='Unknown':
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Uses {!r} versification system".format( versificationSystemName ) )
             BibleVersificationSystem.__init__( self, versificationSystemName )
@@ -333,7 +335,7 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
 
         # Do some cross-checking
         myBooks = getOrganisationalSystemValue( 'includesBooks' )
-        if myBooks is not None:
+        if myBooks is not None and haveBookOrder:
             for BBB in myBooks:
                 if not BibleBookOrderSystem.containsBook( self, BBB ):
                     logging.error( _("Book {!r} is included in {} system but missing from {} book order system").format( BBB, self.__systemName, BibleBookOrderSystem.getBookOrderSystemName( self ) ) )
-- 
2.43.0


From 3dd03fe73b675408ee10ed0a9b24aeaa3b506efa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 073/187] fix: no endless recursion for a system which uses
 itself

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index ff52536..9d09097 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -240,6 +240,7 @@ class BibleOrganisationalSystems:
                     for trySystemName in trySystemNames:
                         if trySystemName == systemName: # Avoid infinite recursion
                             trySystemName += '_' + possibleType
+                        if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is thisSystem: continue # A system can't help itself
                         result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "trySystemName result is {}".format( repr(result) ) ); halt
                         if result is not None: return result
-- 
2.43.0


From 7daf0f62efec52ada40736f6095c32574bf26603 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 074/187] fix: load book orders, punctuation and versification
 from JSON and XML

---
 BibleOrgSys/Reference/BibleBookOrders.py      | 19 +++++++++++--------
 .../Reference/BiblePunctuationSystems.py      | 11 +++++++----
 .../Reference/BibleVersificationSystems.py    | 17 ++++++++++++-----
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBookOrders.py b/BibleOrgSys/Reference/BibleBookOrders.py
index f7839b1..ce0bfdb 100755
--- a/BibleOrgSys/Reference/BibleBookOrders.py
+++ b/BibleOrgSys/Reference/BibleBookOrders.py
@@ -94,17 +94,20 @@ class BibleBookOrderSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBookOrders pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBookOrders_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                try:
+                    jsonIsNewer = os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
+                                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
+                except FileNotFoundError:
+                    jsonIsNewer = os.access( standardJsonFilepath, os.R_OK ) # There's no single XML file for these systems
+                if jsonIsNewer:
                     import json
-                    vPrint( 'Info', DEBUGGING_THIS_MODULE, f"NOT TESTED -- CODE MAY NEED ADJUSTING -- Loading json file {standardJsonFilepath}…" )
+                    vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
                         self.__DataDicts = json.load( JsonFile )
-                        self.__DataLists = json.load( JsonFile )
-                    # # NOTE: We have to convert str referenceNumber keys back to ints
-                    # self.__DataDicts['referenceNumberDict'] = { int(key):value \
-                    #             for key,value in self.__DataDicts['referenceNumberDict'].items() }
+                    # NOTE: We have to convert the str book number keys back to ints (and the lists aren't stored separately)
+                    self.__DataDicts = { systemName:(bookDict,{int(key):BBB for key,BBB in numberDict.items()}) \
+                                for systemName,(bookDict,numberDict) in self.__DataDicts.items() }
+                    self.__DataLists = { systemName:[numberDict[n] for n in sorted(numberDict)] for systemName,(_bookDict,numberDict) in self.__DataDicts.items() }
                     return self # So this command can be chained after the object creation
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBookOrders JSON file can't be loaded!" )
diff --git a/BibleOrgSys/Reference/BiblePunctuationSystems.py b/BibleOrgSys/Reference/BiblePunctuationSystems.py
index 4133cf7..dffce1d 100755
--- a/BibleOrgSys/Reference/BiblePunctuationSystems.py
+++ b/BibleOrgSys/Reference/BiblePunctuationSystems.py
@@ -89,9 +89,12 @@ class BiblePunctuationSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BiblePunctuationSystems pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BiblePunctuationSystems_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                try:
+                    jsonIsNewer = os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
+                                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
+                except FileNotFoundError:
+                    jsonIsNewer = os.access( standardJsonFilepath, os.R_OK ) # There's no single XML file for these systems
+                if jsonIsNewer:
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
@@ -107,7 +110,7 @@ class BiblePunctuationSystems:
             if XMLFolder is not None:
                 logging.warning( _("Bible Punctuation systems are already loaded -- your given filepath of {!r} was ignored").format(XMLFolder) )
             bvsc = BiblePunctuationSystemsConverter()
-            bvsc.loadAndValidate( standardXMLFileOrFilepath ) # Load the XML (if not done already)
+            bvsc.loadSystems( XMLFolder ) # Load the XML (if not done already)
             self.__DataDict = bvsc.importDataToPython() # Get the various dictionaries organised for quick lookup
         return self # So this command can be chained after the object creation
         #     # See if we can load from the pickle file (faster than loading from the XML)
diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 588920f..d756261 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -137,13 +137,20 @@ class BibleVersificationSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleVersificationSystems pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleVersificationSystems_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                try:
+                    jsonIsNewer = os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
+                                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
+                except FileNotFoundError:
+                    jsonIsNewer = os.access( standardJsonFilepath, os.R_OK ) # There's no single XML file for these systems
+                if jsonIsNewer:
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
                         self.__DataDict = json.load( JsonFile )
+                    # NOTE: We have to convert the [C,V] lists back to (C,V) tuples
+                    for systemDict in self.__DataDict.values():
+                        for listName in ('omitted','combined','reordered'):
+                            systemDict[listName] = { BBB:[tuple(entry) for entry in entryList] for BBB,entryList in systemDict[listName].items() }
                     # # NOTE: We have to convert str referenceNumber keys back to ints
                     # self.__DataDict['referenceNumberDict'] = { int(key):value \
                     #             for key,value in self.__DataDict['referenceNumberDict'].items() }
@@ -154,8 +161,8 @@ class BibleVersificationSystems:
             from BibleOrgSys.Reference.Converters.BibleVersificationSystemsConverter import BibleVersificationSystemsConverter
             if XMLFolder is not None:
                 logging.warning( _("Bible versification systems are already loaded -- your given filepath of {!r} was ignored").format(XMLFolder) )
-            bvsc = BibleVersificationSystemsConverter( XMLFolder )
-            bvsc.loadAndValidate( XMLFileOrFilepath ) # Load the XML (if not done already)
+            bvsc = BibleVersificationSystemsConverter()
+            bvsc.loadSystems( XMLFolder ) # Load the XML (if not done already)
             self.__DataDict = bvsc.importDataToPython() # Get the various dictionaries organised for quick lookup
         return self # So this command can be chained after the object creation
         #     # See if we can load from the pickle file (faster than loading from the XML)
-- 
2.43.0


From 4b37bf06f1902ed36692a9791f7174608a90ac0c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 075/187] fix: exportDataToPython of versification systems
 writes valid Python

---
 .../Converters/BibleVersificationSystemsConverter.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
index 6b94d45..7a60e1c 100755
--- a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
@@ -451,15 +451,15 @@ class BibleVersificationSystemsConverter:
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['CV'], systemName, "BBB referenceAbbreviation", "tuples containing (\"numChapters\", numChapters) then (chapterNumber, numVerses)" )
             myFile.write( "}} # end of chapterVerseDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-            myFile.write( "omittedVersesDict = {{\n  # Key is versificationSystemName\n  # Fields are omittedVersesSystem\n" )
+            myFile.write( "omittedVersesDict = {\n  # Key is versificationSystemName\n  # Fields are omittedVersesSystem\n" )
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['omitted'], systemName, "BBB referenceAbbreviation", "tuples containing (chapterNumber, omittedVerseNumber)" )
             myFile.write( "}} # end of omittedVersesDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-            myFile.write( "combinedVersesDict = {{\n  # Key is versificationSystemName\n  # Fields are combinedVersesSystem\n" )
+            myFile.write( "combinedVersesDict = {\n  # Key is versificationSystemName\n  # Fields are combinedVersesSystem\n" )
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['combined'], systemName, "BBB referenceAbbreviation", "tuples containing (chapterNumber, omittedVerseNumber)" )
             myFile.write( "}} # end of combinedVersesDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-            myFile.write( "reorderedVersesDict = {{\n  # Key is versificationSystemName\n  # Fields are reorderedVersesSystem\n" )
+            myFile.write( "reorderedVersesDict = {\n  # Key is versificationSystemName\n  # Fields are reorderedVersesSystem\n" )
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['reordered'], systemName, "BBB referenceAbbreviation", "tuples containing (chapterNumber, omittedVerseNumber)" )
             myFile.write( "}} # end of reorderedVersesDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-- 
2.43.0


From ad8309b465d56efdacd983927149a04ed18d3f31 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 076/187] fix: Book names can be loaded from JSON when there's
 no pickle

---
 BibleOrgSys/Reference/BibleBooksNames.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 498ab7d..32cd94a 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -246,9 +246,12 @@ class BibleBooksNamesSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBooksNames pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksNames_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                try:
+                    jsonIsNewer = os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
+                                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
+                except FileNotFoundError:
+                    jsonIsNewer = os.access( standardJsonFilepath, os.R_OK ) # There's no single XML file for these systems
+                if jsonIsNewer:
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
-- 
2.43.0


From 51445c253ef1642dcec18b822bb5eb1d156e8c65 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 077/187] fix: getBookName and getBookAbbreviation give BBB for
 books without a name in the system

---
 BibleOrgSys/Reference/BibleBooksNames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 32cd94a..9c93f18 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -517,7 +517,8 @@ class BibleBooksNamesSystem:
         """
         if BibleOrgSysGlobals.debugFlag: assert len(BBB) == 3
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__systemName )
-        return self.__bookNamesDict[BBB]['defaultName']
+        bookNameEntry = self.__bookNamesDict[BBB]
+        return bookNameEntry['defaultName'] if isinstance( bookNameEntry, dict ) else bookNameEntry # It's just BBB if this system has no name for the book
     # end of BibleBooksNamesSystem.getBookName
 
 
@@ -526,7 +527,8 @@ class BibleBooksNamesSystem:
         Get the default book abbreviation from the given referenceAbbreviation.
         """
         if BibleOrgSysGlobals.debugFlag: assert len(BBB) == 3
-        return self.__bookNamesDict[BBB]['defaultAbbreviation']
+        bookNameEntry = self.__bookNamesDict[BBB]
+        return bookNameEntry['defaultAbbreviation'] if isinstance( bookNameEntry, dict ) else bookNameEntry # It's just BBB if this system has no name for the book
     # end of BibleBooksNamesSystem.getBookAbbreviation
 
 
-- 
2.43.0


From 0a935649c43d1a9e4bdb9e09fb4552573e59a450 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 078/187] fix: Book names systems prefer a complete name over
 the start of a longer one

---
 BibleOrgSys/Reference/BibleBooksNames.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 9c93f18..c1ad8e7 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -374,6 +374,13 @@ class BibleBooksNamesSystems:
 
         upperCaseBookNameOrAbbreviation = bookNameOrAbbreviation.upper()
 
+        # Complete names and abbreviations in any system come before the starts of longer names
+        for _divisionsNamesDict, _booknameLeadersDict, thisBookNamesDict in self.__DataDicts.values():
+            for BBB in thisBookNamesDict:
+                for possibility in thisBookNamesDict[BBB]['inputFields']:
+                    if possibility.upper() == upperCaseBookNameOrAbbreviation:
+                        return BBB
+
         for systemName in self.__DataDicts:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\n'+repr(systemName) )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__DataDicts[systemName] )
-- 
2.43.0


From 84f2bc9bf230bb33ecb8cfb11e2e9b09ba653472 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 079/187] fix: Second Peter is called 2 Pedro in Portuguese and
 Spanish

---
 .../BibleBooksNames_por_traditional.xml       |   2 +-
 .../BibleBooksNames_spa_traditional.xml       |   2 +-
 .../DerivedFiles/BibleBooksNames_Tables.json  |   8 ++++----
 .../BibleBooksNames_Tables.pickle             | Bin 107120 -> 107115 bytes
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml
index d8b2279..8f88947 100644
--- a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml
+++ b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_por_traditional.xml
@@ -686,7 +686,7 @@ See the supplied ReadMe.txt for more details.
     <inputAbbreviation>1 Saint Prre</inputAbbreviation>
   </BibleBookNames>
   <BibleBookNames referenceAbbreviation="PE2">
-    <defaultName>1 Pedro</defaultName>
+    <defaultName>2 Pedro</defaultName>
     <defaultAbbreviation>2 Pie</defaultAbbreviation>
     <inputAbbreviation>2 Prre</inputAbbreviation>
     <inputAbbreviation>2 Saint Pierre</inputAbbreviation>
diff --git a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml
index 5e2568b..c152100 100644
--- a/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml
+++ b/BibleOrgSys/DataFiles/BookNames/BibleBooksNames_spa_traditional.xml
@@ -686,7 +686,7 @@ See the supplied ReadMe.txt for more details.
     <inputAbbreviation>1 Saint Prre</inputAbbreviation>
   </BibleBookNames>
   <BibleBookNames referenceAbbreviation="PE2">
-    <defaultName>1 Pedro</defaultName>
+    <defaultName>2 Pedro</defaultName>
     <defaultAbbreviation>2 Pie</defaultAbbreviation>
     <inputAbbreviation>2 Prre</inputAbbreviation>
     <inputAbbreviation>2 Saint Pierre</inputAbbreviation>
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
index a99bb2e..d653dec 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
@@ -4093,10 +4093,10 @@
         ]
       },
       "PE2": {
-        "defaultName": "1 Pedro",
+        "defaultName": "2 Pedro",
         "defaultAbbreviation": "2 Pie",
         "inputFields": [
-          "1 Pedro",
+          "2 Pedro",
           "2 Pie",
           "2 Prre",
           "2 Saint Pierre",
@@ -11245,10 +11245,10 @@
         ]
       },
       "PE2": {
-        "defaultName": "1 Pedro",
+        "defaultName": "2 Pedro",
         "defaultAbbreviation": "2 Pie",
         "inputFields": [
-          "1 Pedro",
+          "2 Pedro",
           "2 Pie",
           "2 Prre",
           "2 Saint Pierre",
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle
index 5ed875e89b1e007a49f38b3ac9929f4ca7d3e3de..8595d5f309be08f1438988c528a832d575eaeb05 100644
GIT binary patch
delta 3361
zcmXZed019u8U}D5(DwzGgfzuW<$QkMK~a!J3lIccun-qS(KH22NOoiqO;CZ#4HbNm
z#|1-Bo3b&rQYLFA)UFy$+pO!#nN*xMou<H<7H2e_=l<%S!|#62cb4~TH(l?j@7_^I
zbAF*P4oaeduT}rD+l!_iA3}YS9?FRy)UDgHklG$${<E?(8<vGFY8c@j%lV(b8B-R+
z8<MD>BCA`s91m_uqL98C_L2p*Nh~wIe*O7J{HPCB+{b;UQ?Tj>_viTO6s8Bk4_fAl
z72~x(Y+2^s`3P;p0hXC?Axe*igDkW5!UPothx57_6s#lQNQ;lIqEI~nA=WY>AB@$L
z;VG6m-x8@4;c1rX-5R53!O51H)tagwhZk7paBHMagVQbZed}DE4d+<AZ#9k9g$PBK
zso0;O%i)z4`&Ur3u0&WPdp!`RpMjsXO#RbwdNW*W@y!Z~)7ue@Wv<DOcEP(XbL!U^
zy$^1&%*>(N)gR%*oSs7C)vNGp+>#>O{t14=GKIt9^xJT|Wqd0m^t<qTmN|AYN}q=>
z$bl<k^(XK}i@Vm+B>g$UCCgZA7O1Om2RF~90(~96VR7Foiq$_LbjsOTQTj*tCyTEU
z&DXaP?pPe>L9xoiA;FVl=TVUMg1sGFP%X#sLGX2$(BaW)06dWI&7*Mr5In@eYds}6
z5QfVZHFB#*AdGYve`mN3hQ~PgS`Ag}NQ5YdNv<x}li?{2li^C#N$_-ssk)S{=fbHD
zbMsQTUI;(o;9x~nYAHe{7cQiOx(HtG;0#S;^$LV?hxs^QoT`8;x&8@?(baH`gFjkN
zQ`9De&FsHOrdJ2oJ9y>>x$}((?BEMtG)gxi>~-)xFA7zy2>ZEf5k;vN;g>jMvF!I1
z_=tlGH`0K%O^Ydn)Kv_1aC;gR(7$+0I$bAk_RFBvYQS(=Gmv*>PzQzZ(@UsAO~6nr
z-&sOiR5Co9w>?SUs1mr8S1+Y<wGOW0TTAJL+5<Q7>zNd-TH*ctb0(#F93F0B6B_hs
z44oOyMfcIhw&JH~BB|RLy2B@z(M09x6nAHjY;iBRHz#IOg6aqN=f-S`SA*e)_;NN)
zRl{K?2j<WiH4+Zwv>bAJ1&eDvW|x}utdV*wR*Z9+x~woA1&?<c`imd;&ZWUB4g>KV
zluM)46gYv?;6!*D*XL5AnhmG$wOpE{7QhQRFpoy4G&r5-=TWeCCY&V;Q}y-(d?1e=
zpj<wgM`5ZMYfAXvc@(FfhF5b$zRa%*uI6?5ve%99CO(@l^Q(jF*{49hNsTb`<N^v;
zP4Hf>ERcP+!u$Dn0mbV>@XJn9v}2Sy3LoR(LK@|9!fCo@270{ZH0h@;U(cCKGJgM5
zp2m;P@Ee6P&A-BD`8)Un_(L92L_z9P_%ohWMA6<~z?WrV3eSx8`3KUMvZ(E`AgdrJ
z!_>1&U&r7Lr@5Lulm{=TL8=o2T^zMs-mstGpPeRjryp;|%G(&Y!-tm3Y&~7#?tF8(
z%&;fiivx@0Zu-E!oK`GXZ6NH&2a72}4S|R9m&NjYIbj#ON+?nV!lQU;iR>o?4&}Wi
zvY&_HNBENxxoXjH4EHRRcVrSgnG;KCvPy)faYHH1P|5IYzFsO%*L?VK9#=*Y_b-Oi
zWKpZb{O9DCE-Nv~1DxJVF`Ow2<8!V*x0jKh%E3@BUn!$-?;?0PR*!x^RINZN=j0V6
z?>=0~wJRu7JqNGnU*I~po|lx<615xN!{^Fnel2h-d#{w6^9T4vj$SEqIt;(Ur7Pw0
z|2ll!<!-8z@S84oQ?<jVTxcr&F8rR0t7gcK&LdplBdg>teF9%}xtr>9_>#-rR9E1u
zE_YLX1%K^wH`Vv>4=#68{RjThg{D%!!gslOwS2ogZE<%SMWuSdy?I!Le3X3Q`)zkm
z`N4y1^pqL~`*T-?Jk~ZGV7qH72oAR0H8mC<XQQTc92{?RMhZpg1ca%!xq3HNC&ANg
zcTc6jb8L4{Er1u=?w(4AGvvUPu__CGiaXcRWSs}++o&mB0+-snZ!YDl3WQ3&uS$xr
z8m^JElbYH9Z?u1_sci^#w!5ZuBLYj9C$Co%!d}j=mSY@%589|HeF%QpZk#VS;V68}
zcGr|TfzZbJHBwn`!GE^VQtC8(hC6DgMqhwGu-zr~Ief`>msAIQ&32d64fvn7yQDhd
zF56vF`WC`}Z7y0!2XyxU2|WUSYpI?Hy#m}V<pcY2?Rtt)1K@%D;d)BYL*ZcoY%P+>
zIT2huV}m?Zf$%7<LSco#p#koW(hnm%62LbXQKXJWhza1(#quUkM3~f8u#v`-DnTf1
zJF<!Tl469NZSQQRC8XLBPVwk1@=-nupW})x@^X9xf6Q-gp#|!1@ZWjxR(Z)f;A@<^
zl_t@*ynCy>>zx?t;;**SY_D75-&^7VPT5BN^<AvJ7r+JEXoBi7LW1H~#nhW`;!i&g
zsgsY^gIF_|%j@V7<quo@dYyc1Y&d{#)KQWe1BdYVdRnX^;V5pdr*Mkni}f^CO~ufo
z+-JLNHXWY96SvE>=EAAGeLLl<#c&#X8k(sx;VhnS<lB`8=krcOPpUF_1yh3@vJzgy
zDGjop=iv3czd=rM3%r#(<TupFK|5p@&ts^W^LNNqItahOFYcgu>Ii(4do;>sC*U@o
z*hq6!JA8_p8s*_V3!fWd+WT7U#nN7%V&F4QW}2-o!&mqvmh<@r{+4gEoX-z%Cr{fc
z|55$~|ID>J=`np5zBhuu*h#6%d!&S(9I;C-kPqz3#k=GHgWw1G&0TWl{;<Wjcgb0e
zgadi*Zfa2D;D@<$H`S?lcp^W$hgPX1csh4)l8<XDJdX>Ts6eH|8T@4vm8u*#mly4&
zT2%^{apzuoMy-L@@~Y?M9G-=r<I~T}1Zv?e?Aa_=$-oU9*DU|0?17uOwwbcjLHGr}
z)hsviD13~w_ffKX13t;^@M-uA4{V{w)cf#x&VoOMKjY&q^1t9^_)24|^x)UvH=NK)
Gf&T{@io2`;

delta 3386
zcmXZed0drM9tLoKB<F~`<U*0kd%e7uL<Phx5Wxj4LlhTa5L6sNWfKsDL|mIJ0|j36
z!421HT9ry^a;j08PmPAvw9HtIN;NH3BTSP{r84Ka%|Gw`KIhzf-gC~o{O-3cs=Y-W
z&$%HHFXi57>Lv*%21~C5t4c=%&B<C;ysCahc$M$ypgAkE>Q{`;s1M2cIjBpQoL_>R
zu+kW8Nsv30k7XL}z`g_t@6(O;GY9@=W~tLJpg*qhOTF3A2i<1LDBYhPU^yHAI}r0`
zNua))4S|-Ez9w2*w99fj-=3g7bcltHa*5I-8Ae&ohSo_sk{)9@um3bs-A6~^SfY&9
zv2>i}gkKn=<LT)ZhOCwQ^n(lu78b3Q7@fp0*K+0@PS$DkLJOVz))IzH3$YclK;<yx
z;=mjksSD{M3l}P6x+-UQ2t$+1Q0wUpX54iWr+>%rh~?C-jZ;;0HQJM8vUcct%V|3r
zr}xl%E$8&D7=4I7Y&o-s)amEx7c8goc9edJe%W#^-;ULPpkK9|RYT+SpXk$;)30)Z
zev^L7a+=<c(yjCbbKc5W^*;RpuFaQe`Xc?Y<yh;})D^l7dlpE6`i8!W-pOXp*XVXL
zH!Dj2NME<mCX%XeGTgEd=OeM|4wngC5tSk%l^@+5`6=cM{b+xe6ESR}8bk-+=M;(5
zgXtkIY`8-r)i4G(@>5O6z4UOG6XcFmVRSgIq{<c@MMt}wq|IeIo}TV<GJ|L8S#+Yy
z*>rKGPNq{_PRGSaola-CFiOcLmBo;aoQ3j)E~1NF$kZ}Mmob#PocBCqRVBS1Rp}C=
zw$Kmbopf_GAE&Djm|>PyOV=Th2Hk*788SleryE`9>?RTF2*Xi)n;}u^Y5Ez2E;552
zqmMTiERq?bt}wLW)M6>{`QC-aJtP5TOJuKf$DNr{p#}{z{Q;=Ylq(W}(xtMlM=YD-
z%%Q5g(|9G@>9ft{H<xYm%)#mOIfL2D#8M?}D#e;*Ql>W1oAJXkIjQ#1`*AEwCaNR!
zQFLTUvd;^{oY?90`YfAThM};xJl34QT&9S+$);O4u|lS(u5M#r+@gEZy%4|B>`s4r
z0BTptWOWZc7=K?WGnAVSMsSXV`3<K-%>jLPh$UgzkR#!GEL+F9oto^?I+~v7cI5Q{
z=v)a@li4r@A-OU_O{Zrdjed|$Kvk~HRP*Th_%v6hs)ckqg7YM#?-DxG9IAX1SLCnE
zL~X3N{j%A*+#H-uZw$bJJQ*N)IFTo#)oS*X;QKs@Qx)_&MCO}iZl<@OBHxU^jeZ<0
z`DU55bRBvW$S4K60kH+<Hr`J+qP)P2d4xWS;|1pFewKdD?G)||)lKw^ZYQDlaGz$k
z(>{B+yoODy%<XiRJuP^7m09Iq=yUjzeusV+0fpu*^CA6_+o|m1Mq!~0QvYDXB~%wm
zSl`d-FU+CJH!Zs$C)24#u>OXPSKZF#q#+nsBzLKHHgsTYk$D+jr*F8Oh=u?>!p@s)
zxP>Q*%qqJE8~ftBBD1m{bWa2qOPK0M`y;K`>{bAM7Y-K71T};nic7`j_6nwL1g)0)
zR46?Hi&vX*BIwa*SZ&4`PftMWYO`B0^d$I}m?vf$9gp}DnWi436R@L164hLK9zHKI
zH`j0IG=!I$^Dd^BprBO3{j%t6b8z~e>yJ~V5}<O~l!uF@66se&7qffB`3S!<rgEmj
z^R|E2h@hDT|1V&b>{*YkYa~l;r60w==~}uD8D+9m?WOnO&t+zbhv_5eT5c}m@9C#8
zzT7P91^O6Pm76U&L7zlZx%vJn`j2QYmuPjGK7)vdBv!vkzZJ})rCaF>!8o2M5&C_G
z4}w{>)J6JZ3|?#Y>N0%=8Ea*d`X~J*4y~0G^)LDwZu2|;p?}1r3Q5+t>CRvroMUdR
zuC@ujXswVLx+mSsT(KlGRey#%k+II)yLZud+pJhRh_-BWB$=|{VF<CkC2JHNW_wH4
zSbCi8Em@Q4DYmy{&7kkMy(McFooIVY)_i(_?JZdg>2%v$vNGwV=ERk;dO5wqM*Do3
zs`D8NY}PDYLYLauyFl`FCBu3feUi;qZee)XOwUxU$LMYLuT`stq1N_REe(bS8__9z
zhch(VC`d79d4l0dn{`V+OFw7hmlX5NG%>trdkdFtW_ZQ?B-LE)*BD;Mp)IDaoTXdL
zDN|*$zQFK~?JZpw>5px1>1v}tv%RJ3D*dhPEnV$&hwUw0`X`2;ZR9SLquSSFg7W-Y
zyLvG6^ssj6ezd;_)#)-(4`K-L;N5hI*FzbCJh+EtDwx6cU^YW2!w3&ryGf{yU>NQ3
z7BD@YVS)$WWthJ_F$|MD7_rC<J(Xda2dfszz~+sQiCa_&n@XFX*(QBNH8AXMe&caj
zD(W=D8F;GAyZRh`9%a?$_J5E5D^6BRn)-zP6a%-*Sk*><hNSH>Rldf~?dAp0&ZZ7r
z-Y#=}e)3>rjszlchxFH-?C27Ll{?I>uR=`Fc-~lg;X8ixM`(?Ci3PIf9u(KecxBNp
z9IG)e9}gXZFKQ$~h0_rjS1XHD6djE{wGt_laiLbmsQcOU0J_zgpC!_>5mRSYluW0f
zx=wP{VtNT~*U4;^O)tkh$2@!abO9Vkeyi5dWw_~>Q?92sAhF(zvz2}njrC@V+vy$n
zq+SvP2-#_dIKZZZSh3S=(3A92II`0`;>YQxUAxS$n#orXvrFcy)ASi&m)X2?^m(-H
zGOw-=>5q^AnX4|*mvIzkCSTEC<2uYtuF>t7-e6u!*XbMB+8__;PP)sz_*;V{tM2!j
z&;yaX&DQjz{gJ=h6v(^jK%Crd=4{a}T;FXbG@K5_oIO&n#?j+(b&u4jDfCoq+$#^M
zS#%;g_nL{O(5cATXa0s}(o1n^pOmOvIuEJ)rAn33YjAbHJghd*8&T3|=I{u;6|Xg#
z1ys}9al6rMP(8g9(Fe@`m3{PnY&{^^>Ph-3{BXcr!Y2AfEITMk>Q(v_PSI!S7Wf~M
j2h`hiD>CU1>5p*yki@G?^kw{V$dtq{>8~*PunhknzDvb_

-- 
2.43.0


From f7d675f16e44be0b4c5d9e83894b16947eec58de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 080/187] fix: Book names systems can be made for books which
 are in no division

---
 BibleOrgSys/Reference/BibleBooksNames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index c1ad8e7..26f5d90 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -108,7 +108,7 @@ def expandBibleNamesInputs ( systemName, divisionsNamesDict, booknameLeadersDict
     # end of expandAbbrevs
 
     assert systemName
-    assert divisionsNamesDict and booknameLeadersDict and bookNamesDict
+    assert booknameLeadersDict and bookNamesDict # but there mightn't be any division for these books
     assert bookList
 
     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("  Expanding {} input abbreviations (for {} books)…").format( systemName, len(bookList) ) )
-- 
2.43.0


From d86362503378cca080a657ec6a75a4581c54a6a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 081/187] fix: getCharacterMarkersList expands milestone
 markers to valid markers

---
 BibleOrgSys/Reference/USFM3Markers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..aaa7e57 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -537,12 +537,15 @@ class USFM3Markers:
                     if includeNestedMarkers: result.append( nestedMarker + '*' )
                 if expandNumberableMarkers and self.isNumberableMarker( marker ):
                     for digit in range(1, int(self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['highestNumberSuffix'])+1):
-                        str_digit = str(digit)
-                        result.append( adjMarker+str_digit )
-                        if includeNestedMarkers: result.append( nestedMarker+str_digit )
+                        # The digit goes before the -s or -e of milestone markers, e.g., qt1-s
+                        numberedMarker = f'{marker[:-2]}{digit}{marker[-2:]}' if marker.endswith( ('-s','-e') ) else f'{marker}{digit}'
+                        adjNumberedMarker = '\\'+numberedMarker if includeBackslash else numberedMarker
+                        nestedNumberedMarker = '\\+'+numberedMarker if includeBackslash else '+'+numberedMarker
+                        result.append( adjNumberedMarker )
+                        if includeNestedMarkers: result.append( nestedNumberedMarker )
                         if includeEndMarkers:
-                            result.append( adjMarker + str_digit + '*' )
-                            if includeNestedMarkers: result.append( nestedMarker + str_digit + '*' )
+                            result.append( adjNumberedMarker + '*' )
+                            if includeNestedMarkers: result.append( nestedNumberedMarker + '*' )
         return result
     # end of USFM3Markers.getCharacterMarkersList
 
-- 
2.43.0


From 2ce6f2046e064c58cd83bb9f13ce6cb01500700e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 082/187] fix: Exported Python lists of USFM markers are lists

---
 BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py | 2 +-
 BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
index a442c7e..c2b0e1e 100755
--- a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
@@ -404,7 +404,7 @@ class USFM2MarkersConverter:
             theFile.write( '{} = [\n    # Fields ({}) are: {}\n'.format( listName, fieldsCount, fieldsComment ) )
             for j,entry in enumerate(theList):
                 theFile.write( '  {}, # {}\n'.format( repr(entry), j ) )
-            theFile.write( "], # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
+            theFile.write( "] # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
         # end of exportPythonList
 
         assert len(self._XMLTree)
diff --git a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
index 232f060..9ed8033 100755
--- a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
@@ -420,7 +420,7 @@ class USFM3MarkersConverter:
             theFile.write( '{} = [\n    # Fields ({}) are: {}\n'.format( listName, fieldsCount, fieldsComment ) )
             for j,entry in enumerate(theList):
                 theFile.write( '  {}, # {}\n'.format( repr(entry), j ) )
-            theFile.write( "], # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
+            theFile.write( "] # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
         # end of exportPythonList
 
         assert len(self._XMLTree)
-- 
2.43.0


From 0cdcdd89315a58090d06b791f7ee2f242b43c678 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 083/187] fix: UnknownBible search chooses from the strict
 results when it rechecks

---
 BibleOrgSys/UnknownBible.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/UnknownBible.py b/BibleOrgSys/UnknownBible.py
index 6b370f3..7136392 100755
--- a/BibleOrgSys/UnknownBible.py
+++ b/BibleOrgSys/UnknownBible.py
@@ -711,6 +711,8 @@ class UnknownBible:
                     totalBibleStrictCount, totalBibleStrictTypes, typesStrictlyFound = recheckStrict( self.givenFolderName, oppositeStrictFlag=True )
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "UnknownBible.recheck: After {} {} {}".format( totalBibleCount, totalBibleTypes, typesFound ) )
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "UnknownBible.recheck: Found {} {} {}".format( totalBibleStrictCount, totalBibleStrictTypes, typesStrictlyFound ) )
+                    if totalBibleStrictCount: # then it's the (more reliable) strict results that we have to choose from
+                        return self.search( strictCheck=True, autoLoad=autoLoad, autoLoadAlways=autoLoadAlways, autoLoadBooks=autoLoadBooks )
                     totalBibleCount, totalBibleTypes, typesFound = totalBibleStrictCount, totalBibleStrictTypes, typesStrictlyFound
             if autoLoadAlways and BibleOrgSysGlobals.verbosityLevel > 0:
                 # If there's only one of a particular type, we'll go for that one
-- 
2.43.0


From c7088fd5eb49a613e7951c1c2944ac3936ec7867 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 084/187] fix: An ESFM Bible isn't counted as a USFM Bible as
 well

---
 BibleOrgSys/UnknownBible.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/UnknownBible.py b/BibleOrgSys/UnknownBible.py
index 7136392..4122df3 100755
--- a/BibleOrgSys/UnknownBible.py
+++ b/BibleOrgSys/UnknownBible.py
@@ -317,6 +317,8 @@ class UnknownBible:
                     typesStrictlyFound.append( 'USFM:' + str(USFM2BibleStrictCount) )
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, "UnknownBible.recheckStrict: USFM2BibleStrictCount", USFM2BibleStrictCount )
                 USFMBibleStrictCount = USFMBibleFileCheck( folderName, strictCheck=oppositeStrictFlag )
+                if USFMBibleStrictCount and ESFMBibleStrictCount: # Every ESFM Bible is also found as a USFM Bible
+                    USFMBibleStrictCount = max( 0, USFMBibleStrictCount - ESFMBibleStrictCount )
                 if USFMBibleStrictCount:
                     totalBibleStrictCount += USFMBibleStrictCount
                     totalBibleStrictTypes += 1
@@ -576,6 +578,8 @@ class UnknownBible:
                 typesFound.append( 'USFM2:' + str(USFM2BibleCount) )
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, "UnknownBible.search: USFM2BibleCount", USFM2BibleCount )
             USFMBibleCount = USFMBibleFileCheck( self.givenFolderName, strictCheck=strictCheck )
+            if USFMBibleCount and ESFMBibleCount: # Every ESFM Bible is also found as a USFM Bible
+                USFMBibleCount = max( 0, USFMBibleCount - ESFMBibleCount )
             if USFMBibleCount:
                 totalBibleCount += USFMBibleCount
                 totalBibleTypes += 1
-- 
2.43.0


From 6db8d4c97057c5f0c4c6f1a88377df7c41d3c8f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 085/187] fix: VerseView and e-Sword file checks honour
 autoLoad and autoLoadBooks like the others

---
 BibleOrgSys/Formats/ESwordBible.py       | 2 +-
 BibleOrgSys/Formats/ESwordCommentary.py  | 2 +-
 BibleOrgSys/Formats/VerseViewXMLBible.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 6edfd23..6acb963 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -176,7 +176,7 @@ def ESwordBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=
             numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "ESwordBibleFileCheck foundProjects", numFound, foundProjects )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, "{} doing autoload of {}…".format( PROGRAM_NAME_VERSION, foundProjects[0][1] ) )
             if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
             eSB = ESwordBible( foundProjects[0][0], foundProjects[0][1] )
diff --git a/BibleOrgSys/Formats/ESwordCommentary.py b/BibleOrgSys/Formats/ESwordCommentary.py
index 8552705..20cbf7c 100755
--- a/BibleOrgSys/Formats/ESwordCommentary.py
+++ b/BibleOrgSys/Formats/ESwordCommentary.py
@@ -175,7 +175,7 @@ def ESwordCommentaryFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:
             numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "ESwordCommentaryFileCheck foundProjects", numFound, foundProjects )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, "{} doing autoload of {}…".format( PROGRAM_NAME_VERSION, foundProjects[0][1] ) )
             if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
             eSB = ESwordCommentary( foundProjects[0][0], foundProjects[0][1] )
diff --git a/BibleOrgSys/Formats/VerseViewXMLBible.py b/BibleOrgSys/Formats/VerseViewXMLBible.py
index 3dcd4a4..cad4c30 100755
--- a/BibleOrgSys/Formats/VerseViewXMLBible.py
+++ b/BibleOrgSys/Formats/VerseViewXMLBible.py
@@ -152,7 +152,7 @@ def VerseViewXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad
         numFound += 1
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "VerseViewXMLBibleFileCheck got", numFound, givenFolderName, lastFilenameFound )
-        if numFound == 1 and (autoLoad and autoLoadBooks):
+        if numFound == 1 and (autoLoad or autoLoadBooks):
             ub = VerseViewXMLBible( givenFolderName, lastFilenameFound )
             if autoLoadBooks: ub.load() # Load and process the file
             return ub
-- 
2.43.0


From cbee6ac34a403f82b4c7829c0c36fd5f8eb280bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 086/187] fix: CSV Bibles load without an abbreviation, with
 book numbers, and without a header line

---
 BibleOrgSys/Formats/CSVBible.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..0a8b97b 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -234,14 +234,15 @@ class CSVBible( Bible ):
             self.sourceFolder = sourceFileOrFolder
             # NOTE: The following code assumes one file for the entire work
             #           but load() can also handle one file per book
+            abbreviation = self.abbreviation or self.givenName # The abbreviation is optional
             for self.sourceFilename in (f'{self.givenName}.csv',f'{self.givenName}.CSV',
                                         f'{self.givenName}.tsv',f'{self.givenName}.TSV',
                                         f'{self.givenName}.txt',f'{self.givenName}.TXT',
                                         self.givenName,
-                                        f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
-                                        f'{self.abbreviation}.tsv',f'{self.abbreviation}.TSV', f'{self.abbreviation.lower()}.tsv',f'{self.abbreviation.lower()}.TSV',
-                                        f'{self.abbreviation}.txt',f'{self.abbreviation}.TXT', f'{self.abbreviation.lower()}.txt',f'{self.abbreviation.lower()}.TXT',
-                                        self.abbreviation,):
+                                        f'{abbreviation}.csv',f'{abbreviation}.CSV', f'{abbreviation.lower()}.csv',f'{abbreviation.lower()}.CSV',
+                                        f'{abbreviation}.tsv',f'{abbreviation}.TSV', f'{abbreviation.lower()}.tsv',f'{abbreviation.lower()}.TSV',
+                                        f'{abbreviation}.txt',f'{abbreviation}.TXT', f'{abbreviation.lower()}.txt',f'{abbreviation.lower()}.TXT',
+                                        abbreviation,):
                 self.sourceFilepath =  os.path.join( self.sourceFolder, self.sourceFilename )
                 # Do a preliminary check on the readability of our file
                 if os.access( self.sourceFilepath, os.R_OK ): # great -- found it
@@ -296,7 +297,10 @@ class CSVBible( Bible ):
                         numColumns = line.count( '\t' ) + 1
                     elif ',' in line:
                         separator = ','
-                        numColumns = line.count( ',' ) + 1 # Might be wrong if text is quoted
+                        if re.match( r'"?\d+"?,"?\d+"?,"?\d+"?,', line ): # It's the first verse already (and the text can contain commas)
+                            numColumns, quoted = 4, line[0]=='"'
+                        else:
+                            numColumns = line.count( ',' ) + 1 # Might be wrong if text is quoted
                     if not separator: continue # keep searching
                 if lineCount <= 3: dPrint( 'Info', DEBUGGING_THIS_MODULE, f"{lineCount}: {separator=} {numColumns=} {quoted=} {BBB=}" )
 
@@ -338,7 +342,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and bookNumber==-1 and not BBB:
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
                     continue
 
-- 
2.43.0


From ff3a164f5d6d4162345ddf058279310c86096790 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 087/187] fix: VPL Bibles with a BOM, blank lines, or no
 encoding given can be loaded

---
 BibleOrgSys/Formats/VPLBible.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..3f6f583 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -181,9 +181,9 @@ def VPLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
                 firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, givenFolderName, numLines=4 )
                 dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Check 1: {firstLines=}" )
                 if firstLines is None: continue # seems we couldn't decode the file
-                if firstLines and firstLines[0][0]==BibleOrgSysGlobals.BOM:
+                if firstLines and firstLines[0].startswith( BibleOrgSysGlobals.BOM ):
                     logging.info( "VPLBibleFileCheck: Detected Unicode Byte Order Marker (BOM) in {}".format( thisFilename ) )
-                    firstLines = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
+                    firstLines[0] = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
                 for line in firstLines:
                     # Try to identify the VPL type
                     match = re.search( '^(\\w{2,5}?)\\s(\\d{1,3})[:\\.](\\d{1,3})\\s', line )
@@ -350,7 +350,7 @@ class VPLBible( Bible ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
                 if not line: continue # Just discard blank lines
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if line.startswith( BibleOrgSysGlobals.BOM ):
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
                     # Try to identify the VPL type
@@ -390,12 +390,13 @@ class VPLBible( Bible ):
         with open( filepath, 'rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
             for lineNumber, line in enumerate( myFile, start=1 ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
-                #if not line: continue # Just discard blank lines # NO, needed for vplType 5
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if line.startswith( BibleOrgSysGlobals.BOM ):
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
 
+                if not line and vplType != 5: continue # Just discard blank lines (but they're needed for vplType 5)
+
                 # Process header stuff
                 if vplType == 3:
                     if   line.startswith( '# language_name:' ):
@@ -430,7 +431,7 @@ class VPLBible( Bible ):
                         string = line[17:].strip()
                         if string and string != 'Not available': settingsDict['Copyright.long'] = string
                         continue
-                    elif line[0]=='#':
+                    elif line.startswith( '#' ):
                         logging.warning( "VPLBible.load {} is skipping unknown line: {}".format( vplType, line ) )
                         continue # Just discard comment lines
                 #elif vplType == 4:
@@ -702,9 +703,6 @@ class VPLBible( Bible ):
                     logging.critical( f"Unknown VPL type {vplType} while processing line {lineNumber}: '{line}'" )
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
 
-                # TODO: Blank lines now get thru (and this might mess things up a little)
-                #if not line: continue # Just discard blank lines # Might want to enable this line ????
-
                 # Do the processing for vplTypes 1-4
                 dPrint( 'Normal', DEBUGGING_THIS_MODULE, f"About to process {BBB} {chapterNumber}:{verseNumber} line {lineNumber:,}: '{line}'…" )
                 if bookCodeText and chapterNumber and verseNumber:
@@ -754,7 +752,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
-- 
2.43.0


From 038e9fc080b302d82f888ad95850d7b007ecde07 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 088/187] fix: Haggai loader keeps the spaces around styled
 words and the text after line breaks

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 34 ++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b9e4cf3..6a860f8 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -609,7 +609,8 @@ class HaggaiXMLBible( Bible ):
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
         vText = '' if verse.text is None else verse.text
-        if vText: vText = vText.strip()
+        vText = vText.lstrip() # But keep any space before a styled portion
+        linePrefix = ('v', verseNumber+' ') # Changes once the verse number has been saved
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -625,12 +626,8 @@ class HaggaiXMLBible( Bible ):
                     logging.warning( "Unexpected {} note type in {}".format( noteType, BBB ) )
                 nText, nTail = subelement.text, subelement.tail
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "note", BBB, chapterNumber, verseNumber, noteType, repr(nText), repr(nTail) )
-                vText += "\\f + \\fk {} \\ft {}\\f*".format( noteType, nText ) if noteType else "\\f + \\ft {}\\f*".format( nText )
-                if nTail:
-                    if '\n' in nTail:
-                        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
-                        nTail = nTail.replace( '\n', ' ' )
-                    vText += nTail
+                if nText is None: nText = '' # e.g., if the note starts immediately with a style
+                vText += "\\f + \\fk {} \\ft {}".format( noteType, nText ) if noteType else "\\f + \\ft {}".format( nText )
                 for sub2element in subelement:
                     if sub2element.tag == HaggaiXMLBible.styleTag:
                         sub2location = "style in " + sublocation
@@ -657,8 +654,14 @@ class HaggaiXMLBible( Bible ):
                         if BibleOrgSysGlobals.debugFlag: assert sText
                         if SFM: vText += SFM+' ' + sText + SFM+'*'
                         else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                        if sTail: vText += sTail.strip()
+                        if sTail: vText += sTail
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( HaggaiXMLBible.styleTag, sub2element.tag, sublocation ) )
+                vText += '\\f*'
+                if nTail:
+                    if '\n' in nTail:
+                        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
+                        nTail = nTail.replace( '\n', ' ' )
+                    vText += nTail
 
             elif subelement.tag == HaggaiXMLBible.styleTag:
                 sublocation = "style in " + location
@@ -685,7 +688,7 @@ class HaggaiXMLBible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
                 else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                if sTail: vText += sTail.strip()
+                if sTail: vText += sTail
 
             elif subelement.tag == HaggaiXMLBible.breakTag:
                 sublocation = "line break in " + location
@@ -699,19 +702,18 @@ class HaggaiXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
-                    vText = ''
-                thisBook.addLine( 'm', subelement.tail.strip() if subelement.tail else '' )
-                #bTail = subelement.tail
-                #if bTail: vText = bTail.strip()
+                if vText or linePrefix[0] == 'v':
+                    thisBook.addLine( linePrefix[0], (linePrefix[1] + vText).replace( '\n', ' ' ).rstrip() )
+                linePrefix = ('m', '')
+                vText = subelement.tail.lstrip() if subelement.tail else ''
             else: logging.error( "Expected to find NOTE or STYLE but got {!r} in {}".format( subelement.tag, location ) )
 
+        vText = vText.rstrip()
         if vText: # This is the main text of the verse (follows the verse milestone)
             if '\n' in vText:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+            thisBook.addLine( linePrefix[0], linePrefix[1] + vText )
     # end of HaggaiXMLBible.__validateAndExtractVerse
 # end of HaggaiXMLBible class
 
-- 
2.43.0


From 6472cdba2daec719887e9b5230ef459d32b430cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 089/187] fix: Zefania loader keeps text after notes and breaks
 in its own verse

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 5487bf8..9dd9330 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -599,8 +599,9 @@ class ZefaniaXMLBible( Bible ):
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
-        vText = verse.text
-        if vText: vText = vText.strip('\n')
+        vText = verse.text.strip('\n') if verse.text else ''
+        # What the next line is saved as (there's no verse number if it's a continuation of the verse, e.g., in the next paragraph)
+        linePrefix = ('v', verseNumber+' ') if verseNumber else ('v~', '')
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -625,7 +626,7 @@ class ZefaniaXMLBible( Bible ):
                         if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
                         nTail = nTail.replace( '\n', ' ' )
-                    thisBook.addLine( 'v~', nTail )
+                    vText += nTail
                 for sub2element in subelement:
                     if sub2element.tag == STYLE_TAG:
                         sub2location = "style in " + sublocation
@@ -649,9 +650,7 @@ class ZefaniaXMLBible( Bible ):
                             if BibleOrgSysGlobals.debugFlag: halt
                         sText, sTail = sub2element.text.strip('\n'), sub2element.tail
                         if BibleOrgSysGlobals.debugFlag: assert sText
-                        if SFM: vText += SFM+' ' + sText + SFM+'*'
-                        else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                        if sTail: vText += sTail.strip('\n')
+                        # Like the rest of the note, this styled text is lost (for now), but it mustn't become text of the verse
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( STYLE_TAG, sub2element.tag, sublocation ) )
 
             elif subelement.tag == STYLE_TAG:
@@ -704,17 +703,16 @@ class ZefaniaXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
+                if vText or linePrefix[0] == 'v':
                     if '\n' in vText:
                         logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                         vText = vText.replace( '\n', ' ' )
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText )
-                    vText = ''
+                    thisBook.addLine( linePrefix[0], (linePrefix[1] + vText).rstrip() )
                 breakText = subelement.tail.strip('\n') if subelement.tail else ''
                 if '\n' in breakText:
                     logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse: newline in breakText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, breakText ) )
                     breakText = breakText.replace( '\n', ' ' )
-                thisBook.addLine( 'm', breakText )
+                linePrefix, vText = ('m', ''), breakText # More text of this line might follow
 
             elif subelement.tag == DIV_TAG:
                 sublocation = "div break in " + location
@@ -751,7 +749,7 @@ class ZefaniaXMLBible( Bible ):
             if '\n' in vText:
                 logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_b: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText )
+            thisBook.addLine( linePrefix[0], linePrefix[1] + vText )
     # end of ZefaniaXMLBible.__validateAndExtractVerse
 # end of ZefaniaXMLBible class
 
-- 
2.43.0


From 7116f21144817e8ea9806c4ba03d1818eb1ba427 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 090/187] fix: OpenSong loader doesn't add 'None' or empty
 poetry lines

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index f5ed1b5..dce6591 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -536,9 +536,9 @@ class OpenSongXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location, 'ks03' )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sub2location, 'ks05' )
                     if subelement.tag == 'i':
-                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail )
+                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail if subelement.tail else '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
-                vText += element.tail if element.tail else ''
+                # NOTE: The tail (after the verse element) is only the formatting of the XML file
                 if not vText:
                     logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'vText1', vText )
-- 
2.43.0


From a9dcf21e77ac38589de2bd9b789b86445ad94eeb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 091/187] fix: e-Sword Bibles can be loaded

---
 BibleOrgSys/Formats/ESwordBible.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 6acb963..2658b4d 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -540,9 +540,8 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
         handleRTFLine( self, myName, BBB, C, V, originalLine, bookObject, myGlobals )
         return
     else:
-        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: What's this: {} {} {}:{} {!r}".format( myName, BBB, C, V, originalLine ) )
-        if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: halt # What's this???
-        bookObject.addLine( 'v', '{} {}'.format( V, originalLine ) )
+        # Must be plain text or just some simple RTF codes, e.g., for italics
+        handleRTFLine( self, myName, BBB, C, V, originalLine, bookObject, myGlobals )
 # end of ESwordModule.handleESwordLine
 
 
@@ -1000,7 +999,7 @@ class ESwordBible( Bible ):
         continued = ourGlobals['haveParagraph'] = False
         haveLines = False
         while True:
-            self.cursor.execute('select Scripture from BibleOrgSys.Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
+            self.cursor.execute('select Scripture from Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
             try:
                 row = self.cursor.fetchone()
                 line = row[0]
-- 
2.43.0


From 1d231a431880c1a6ff0e65adf1e6f8ce7867e5df Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 092/187] fix: theWord loader reads the module information and
 restarts cleanly with another encoding

---
 BibleOrgSys/Formats/theWordBible.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index e0826bc..ea41e5c 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -876,7 +876,7 @@ class theWordBible( Bible ):
             booksExpected, textLineCountExpected = theWordOTBookCount, theWordOTTotalLines
         elif fileExtensionUpper in ('.NT','.NTX',):
             testament, BBB = 'NT', 'MAT'
-            booksExpected, textLineCountExpected = theWordNTBookCount, theWordOTTotalLines
+            booksExpected, textLineCountExpected = theWordNTBookCount, theWordNTTotalLines
 
         # Create the first book
         thisBook = BibleBook( self, BBB )
@@ -892,12 +892,12 @@ class theWordBible( Bible ):
         ourGlobals = {}
         continued = ourGlobals['haveParagraph'] = False
         encodings = ['utf-8', 'ISO-8859-1', 'ISO-8859-15']
-        encodings.remove( self.encoding ) # Remove the given encoding if included
+        if self.encoding in encodings: encodings.remove( self.encoding ) # Remove the given encoding if included
         if self.encoding: encodings.insert( 0, self.encoding ) # Put the given encoding back in in the first position
         for encoding in encodings: # Start by trying the given encoding
             try:
                 with open( self.sourceFilepath, 'rt', encoding=encoding ) as myFile: # Automatically closes the file when done
-                    for sourceLine in myFile:
+                    for sourceLine in myFile.readlines(): # Decodes all of the file before we start processing any of it
                         originalLine = sourceLine
                         lineCount += 1
                         if lineCount==1 and self.encoding.lower()=='utf-8' and originalLine[0]==BibleOrgSysGlobals.BOM:
@@ -930,7 +930,7 @@ class theWordBible( Bible ):
                                     else: logging.warning( "theWordBible.load: Didn't save {} because it was blank".format( BBB ) )
 
                                     bookCount += 1
-                                    if bookCount >= booksExpected: break
+                                    if bookCount >= booksExpected: continue # There might still be module info
                                     BBB = BOS.getNextBookCode( BBB )
                                     # Create the next book
                                     thisBook = BibleBook( self, BBB )
@@ -964,11 +964,12 @@ class theWordBible( Bible ):
                                     assert len(bits) == 2
                                     fieldName = bits[0]
                                     fieldContents = bits[1]
-                                    if line.endswith( '\\' ): continued = True
+                                    if line.endswith( '\\' ): fieldContents, continued = fieldContents[:-1], True
                                     else: self.suppliedMetadata['theWord'][fieldName] = fieldContents
                             else: # continued
-                                fieldContents += line
-                                if not line.endswith( '\\' ):
+                                if line.endswith( '\\' ): fieldContents += line[:-1]
+                                else:
+                                    fieldContents += line
                                     self.suppliedMetadata['theWord'][fieldName] = fieldContents
                                     continued = False
                         #if lineCount > 3:
-- 
2.43.0


From f57c5d776776a0402832cb1f19b3fcb8a9287cec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 093/187] fix: A Haggai XML Bible isn't detected as Zefania as
 well

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 9dd9330..1c286df 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -152,6 +152,7 @@ def ZefaniaXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:b
         if strictCheck or BibleOrgSysGlobals.strictCheckingFlag:
             firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, givenFolderName, numLines=7 )
             if not firstLines or len(firstLines)<2: continue
+            if any( 'haggai_' in line for line in firstLines ): continue # It's a Haggai XML Bible
             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ZB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
@@ -208,6 +209,7 @@ def ZefaniaXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:b
             if strictCheck or BibleOrgSysGlobals.strictCheckingFlag:
                 firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, tryFolderName, numLines=7 )
                 if not firstLines or len(firstLines)<2: continue
+                if any( 'haggai_' in line for line in firstLines ): continue # It's a Haggai XML Bible
                 if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                 and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ZB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
-- 
2.43.0


From 0ac9e103eb8e9d4446f9f6ad7c77db33deea5b39 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 094/187] fix: VPL Psalm verse starting with an opening chevron
 only can be loaded

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 3f6f583..9109ad6 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -517,7 +517,7 @@ class VPLBible( Bible ):
                         .replace( '<', '\\wj ' ).replace( '>', '\\wj*' )
                     if verseText and verseText[0]=='«':
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Oh!", BBB, chapterNumberString, verseNumberString, repr(vText) )
-                        if BBB=='PSA' and verseNumberString=='1': # Psalm title
+                        if BBB=='PSA' and verseNumberString=='1' and '»' in verseText: # Psalm title
                             vBits = verseText[1:].split( '»' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "vBits", vBits )
                             thisBook.addLine( 'd', vBits[0] ) # Psalm title
-- 
2.43.0


From 5db36535017d1cbfe6bad05d363f66a06b6e1807 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 095/187] fix: YET Bible in a subfolder can be loaded, and
 other .yet files there are skipped

---
 BibleOrgSys/Formats/YETBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..8de57e5 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -185,7 +185,7 @@ def YETBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
                 if strictCheck or BibleOrgSysGlobals.strictCheckingFlag:
                     firstLine = BibleOrgSysGlobals.peekIntoFile( thisFilename, tryFolderName )
                     if not firstLine.startswith( "info\t"):
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "YETBible (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) ); halt
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "YETBible (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) )
                         continue
                 foundProjects.append( (tryFolderName, thisFilename,) )
                 lastFilenameFound = thisFilename
@@ -194,7 +194,7 @@ def YETBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "YETBibleFileCheck foundProjects", numFound, foundProjects )
         if numFound == 1 and (autoLoad or autoLoadBooks):
             if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
-            uB = YETBible( foundProjects[0][0], foundProjects[0][1][:-9] ) # Remove the end of the actual filename "_utf8.txt"
+            uB = YETBible( foundProjects[0][0], foundProjects[0][1][:-4] ) # Remove the end of the actual filename ".yet"
             if autoLoadBooks: uB.load() # Load and process the file
             return uB
         return numFound
-- 
2.43.0


From c5c502a3a06e035befbbce508d417c614a1a0108 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 096/187] fix: OSIS file check loads the very file which it
 found

---
 BibleOrgSys/Formats/OSISXMLBible.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4416b8a..a316943 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -146,7 +146,7 @@ def OSISXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "OSISXMLBibleFileCheck got", numFound, givenFolderName, lastFilenameFound )
         if numFound == 1 and (autoLoad or autoLoadBooks):
-            ub = OSISXMLBible( givenFolderName, lastFilenameFound ) # lastFilenameFound can be None
+            ub = OSISXMLBible( os.path.join( givenFolderName, lastFilenameFound ) if lastFilenameFound else givenFolderName, lastFilenameFound ) # lastFilenameFound can be None
             if autoLoadBooks: ub.loadBooks() # Load and process the file(s)
             return ub
         return numFound
@@ -183,13 +183,13 @@ def OSISXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool
         # See if there's an OSIS project here in this folder
         for thisFilename in sorted( foundSubfiles ):
             if strictCheck or BibleOrgSysGlobals.strictCheckingFlag:
-                firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, tryFolderName, numLines=2 )
+                firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, tryFolderName, numLines=3 )
                 if not firstLines or len(firstLines)<2: continue
                 if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                 and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                     #dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"OSISb (unexpected) first line was {firstLines} in {thisFilename}" )
                     continue
-                if '<osis' not in firstLines[1]:
+                if '<osis' not in firstLines[1] and '<osis' not in firstLines[2]:
                     continue
             foundProjects.append( (tryFolderName, thisFilename) )
             lastFilenameFound = thisFilename
@@ -200,8 +200,8 @@ def OSISXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "OSISXMLBibleFileCheck foundProjects", numFound, foundProjects )
         if numFound == 1 and (autoLoad or autoLoadBooks):
-            if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
-            ub = OSISXMLBible( foundProjects[0][0], foundProjects[0][1] ) # Folder and filename
+            if lastFilenameFound: ub = OSISXMLBible( os.path.join( foundProjects[0][0], lastFilenameFound ), lastFilenameFound ) # Filepath and filename
+            else: ub = OSISXMLBible( foundProjects[0][0] ) # Folder with a file for each book
             if autoLoadBooks: ub.loadBooks() # Load and process the file(s)
             return ub
         return numFound
-- 
2.43.0


From 73ff6e7626143620dea59e4e4bb49b33d0c2cb21 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 097/187] fix: Text before the first marker of a USFM or ESFM
 file is reported instead of raising AttributeError

---
 BibleOrgSys/Formats/ESFMBibleBook.py  | 5 +++++
 BibleOrgSys/Formats/USFM2BibleBook.py | 5 +++++
 BibleOrgSys/Formats/USFMBibleBook.py  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/BibleOrgSys/Formats/ESFMBibleBook.py b/BibleOrgSys/Formats/ESFMBibleBook.py
index 2939977..8f536b5 100755
--- a/BibleOrgSys/Formats/ESFMBibleBook.py
+++ b/BibleOrgSys/Formats/ESFMBibleBook.py
@@ -460,6 +460,11 @@ class ESFMBibleBook( BibleBook ):
         lastMarker = lastText = ''
         loadErrors:list[str] = []
         for marker,originalText in originalBook.lines: # Always process a line behind in case we have to combine lines
+            if marker is None: # There's text before the first marker in the file
+                loadErrors.append( _("{} {}:{} Found text before the first marker: {!r}").format( self.BBB, C, V, originalText ) )
+                logging.critical( _("Found text before the first marker in {}: {!r}").format( self.BBB, originalText ) )
+                self.addPriorityError( 100, C, V, _("Found text before the first marker in file") )
+                continue # Nowhere to put it
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "After {} {}:{} \\{} {!r}".format( self.BBB, C, V, marker, originalText ) )
             if not marker:
                 logging.critical( "After {} {}:{} \\{} {!r}".format( self.BBB, C, V, marker, originalText ) )
diff --git a/BibleOrgSys/Formats/USFM2BibleBook.py b/BibleOrgSys/Formats/USFM2BibleBook.py
index 3d1fb6d..40b9505 100755
--- a/BibleOrgSys/Formats/USFM2BibleBook.py
+++ b/BibleOrgSys/Formats/USFM2BibleBook.py
@@ -154,6 +154,11 @@ class USFM2BibleBook( BibleBook ):
         lastMarker = lastText = ''
         loadErrors:list[str] = []
         for marker,text in originalBook.lines: # Always process a line behind in case we have to combine lines
+            if marker is None: # There's text before the first marker in the file
+                loadErrors.append( _("{} {}:{} Found text before the first marker: {!r}").format( self.BBB, C, V, text ) )
+                logging.critical( _("Found text before the first marker in {}: {!r}").format( self.BBB, text ) )
+                self.addPriorityError( 100, C, V, _("Found text before the first marker in file") )
+                continue # Nowhere to put it
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "After {} {}:{} \\{} {!r}".format( self.BBB, C, V, marker, text ) )
 
             # Keep track of where we are for more helpful error messages
diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c24f716..c2d92be 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -416,6 +416,11 @@ class USFMBibleBook( BibleBook ):
         loadErrors:list[str] = []
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFMBibleBook.load():", type(originalBook), type(originalBook.lines), len(originalBook.lines), originalBook.lines[0] )
         for marker,text in originalBook.lines: # Always process a line behind in case we have to combine lines
+            if marker is None: # There's text before the first marker in the file
+                loadErrors.append( _("{} {}:{} Found text before the first marker: {!r}").format( self.BBB, C, V, text ) )
+                logging.critical( _("Found text before the first marker in {}: {!r}").format( self.BBB, text ) )
+                self.addPriorityError( 100, C, V, _("Found text before the first marker in file") )
+                continue # Nowhere to put it
             if DEBUGGING_THIS_MODULE and gotUWEncoding:
                 dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f'''\n'{self.workName}' {self.BBB} USFMBible.load() loop for line {marker}='{text}' for alignment level = {alignmentVariables['level']} (Max so far = {alignmentVariables['maxLevel']})
     Alignment text = {alignmentVariables['text']!r}{chr(10) if alignmentVariables['text'] else ''}    Alignment words = {alignmentVariables['words']!r}''' )
-- 
2.43.0


From 29a05cd964e7fcc50ee619a578eff1130d3804a0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 098/187] fix: write ESFM id line before ide and rem lines

---
 BibleOrgSys/BibleWriter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 06da712..faacad9 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1011,12 +1011,15 @@ class BibleWriter( InternalBible ):
                 if 'id' not in initialMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write ID" )
                     myFile.write( '\\id {} — BibleOrgSys ESFM export v{}\n'.format( USFMAbbreviation.upper(), PROGRAM_VERSION ) )
+                extraHeaderLines = ''
                 if 'ide' not in initialMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write IDE" )
-                    myFile.write( '\\ide UTF-8\n' )
+                    extraHeaderLines = '\\ide UTF-8\n'
                     if 'rem' not in initialMarkers:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write REM" )
-                        myFile.write( '\\rem ESFM v0.5 {}\n'.format( BBB ) )
+                        extraHeaderLines += '\\rem ESFM v0.5 {}\n'.format( BBB )
+                if 'id' not in initialMarkers: # so we've just written our own id line above
+                    myFile.write( extraHeaderLines ); extraHeaderLines = ''
                 for j, processedBibleEntry in enumerate( internalBibleBookData ):
                     pseudoMarker, value = processedBibleEntry.getMarker(), processedBibleEntry.getFullText()
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"writeESFM {indentLevel=} now {BBB} {j} {pseudoMarker=} {value}" )
@@ -1101,6 +1104,8 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, pseudoMarker, repr(ESFMLine) )
                     #if BBB=='GEN' and j > 20: halt
                     if ESFMLine: myFile.write( '{}\n'.format( ESFMLine ) )
+                    if extraHeaderLines and pseudoMarker == 'id': # These go after the id line which must come first
+                        myFile.write( extraHeaderLines ); extraHeaderLines = ''
                     if pseudoMarker in BOS_NESTING_MARKERS: # or pseudoMarker in ('ms','ms1','ms2','ms3','ms4'):
                         indentLevel += 1
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, indentLevel )
-- 
2.43.0


From c8f29a1a5a9a891cc83d5a57b521fbc658bd7ca0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 099/187] fix: find the id line of a USFM file with a byte
 order mark

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 19ae377..0cebf27 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -278,6 +278,7 @@ class USFMFilenames:
                 for line in possibleUSFMFile:
                     lineNumber += 1
                     if line[-1]=='\n': line = line[:-1] # Removing trailing newline character
+                    if lineNumber==1 and line.startswith( BibleOrgSysGlobals.BOM ): line = line[1:] # Remove any Unicode Byte Order Marker (BOM)
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, thisFilename, lineNumber, line )
                     if line.startswith( '\\id ' ):
                         if len(line)<5: logging.warning( "id line {!r} in {} is too short".format( line, filepath ) )
-- 
2.43.0


From f1cd4528c103bda35b6dd1a54a30a66bb1bb423c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 100/187] fix: don't take files without any markers for USFM
 books because of their names

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 0cebf27..b100834 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -311,6 +311,17 @@ class USFMFilenames:
     # end of USFMFilenames.getUSFMIDFromFile
 
 
+    def hasMarkers( self, thisFilename ) -> bool:
+        """
+        Returns True if any line in the file starts with a backslash.
+        """
+        with open( os.path.join( self.givenFolderName, thisFilename ), 'rb' ) as possibleUSFMFile: # Don't care about the encoding here
+            for line in possibleUSFMFile:
+                if line.lstrip( b'\xef\xbb\xbf \t' ).startswith( b'\\' ): return True
+        return False
+    # end of USFMFilenames.hasMarkers
+
+
     def getUSFMIDsFromFiles( self, givenFolder ):
         """
         Go through all the files in the given folder and see how many USFM IDs we can find.
@@ -506,7 +517,8 @@ class USFMFilenames:
         fnPrint( DEBUGGING_THIS_MODULE, f"getMaximumPossibleFilenameTuples( {strictCheck=} )" )
 
         resultString, resultList = 'Confirmed', self.getConfirmedFilenameTuples()
-        resultListExt = self.getPossibleFilenameTuplesExt()
+        # A name alone (which could be something like names.txt) isn't enough -- there must also be some markers in the file
+        resultListExt = [(BBB,filename) for BBB,filename in self.getPossibleFilenameTuplesExt() if self.hasMarkers( filename )]
         if len(resultListExt) > len(resultList):
             resultString, resultList = 'External', resultListExt
         resultListInt = self.getPossibleFilenameTuplesInt()
-- 
2.43.0


From 24818d6d1be6864610993ebaa1e46b3b384b20be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 101/187] fix: name the right file when a USX file has no XML
 declaration

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index c749611..b615e79 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -273,7 +273,7 @@ class USXFilenames:
                     if not firstLines or len(firstLines)<3: continue
                     if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                     and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                     if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                         continue # so it doesn't get added
                 resultList.append( (BBB, possibleFilename,) )
@@ -311,7 +311,7 @@ class USXFilenames:
                                 continue
                             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                             if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                                 continue # so it doesn't get added
                         self.doListAppend( BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMBookCode ), possibleFilename, resultList, "getPossibleFilenameTuplesExt" )
-- 
2.43.0


From a06e02133ce23a0bc718cd50b255de7f3acba187 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 102/187] fix: recognise USX files named by USX book codes

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index b615e79..7991643 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -120,10 +120,10 @@ class USXFilenames:
                 if foundLength == 3:
                     self.hyphenIndex = None
                     for USXBookCode,USXDigits,BBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllUSXBooksCodeNumberTriples():
-                        if foundFileBit == BBB:
+                        if foundFileBit == USXBookCode.upper():
                             self.pattern = 'BBB'
                             matched = True
-                        elif foundFileBit.upper() == BBB:
+                        elif foundFileBit.upper() == USXBookCode.upper():
                             self.pattern = 'bbb'
                             matched = True
                 elif foundLength>=6 and containsDigits:
-- 
2.43.0


From 864809a5347a521fa4dfb50bb9e3473c0c4e1772 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 103/187] fix: recognise numbered and hyphenated USX filenames
 of the New Testament

---
 BibleOrgSys/InputOutput/USXFilenames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index 7991643..05aba2c 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -143,8 +143,10 @@ class USXFilenames:
                             if USXBookCode.isupper(): self.pattern = self.pattern.replace( 'bbb', 'BBB' )
                             matched = True
                             break
-                        elif USXDigits[1:] in foundFileBit and '-' in foundFileBit and (USXBookCode in foundFileBit or USXBookCode.upper() in foundFileBit):
-                            digitsIndex = foundFileBit.index( USXDigits[1:] ) # Without the leading zero for the 66 books
+                        # The form with a hyphen has only two digits which are one more for books after Malachi (see getDerivedFilenameTuples)
+                        twoDigits = str( int(USXDigits)+1 )[-2:] if USXDigits.isdigit() and int(USXDigits) > 39 else USXDigits[1:]
+                        if '-' in foundFileBit and twoDigits in foundFileBit and (USXBookCode in foundFileBit or USXBookCode.upper() in foundFileBit):
+                            digitsIndex = foundFileBit.index( twoDigits )
                             hyphenIndex = foundFileBit.index( '-' )
                             USXBookCodeIndex = foundFileBit.index(USXBookCode) if USXBookCode in foundFileBit else foundFileBit.index(USXBookCode.upper())
                             USXBookCode = foundFileBit[USXBookCodeIndex:USXBookCodeIndex+3]
-- 
2.43.0


From 58e3fc93ba2f5ba03f32d7dbf12deab426594fab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 104/187] fix: load USX files with lower case names

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 574b5d1..6a90075 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -105,7 +105,7 @@ class USXXMLBibleBook( BibleBook ):
                 for attrib,value in chapterNumberElement.items():
                     if attrib=='eid':
                         chapterEndId = value
-                        assert chapterEndId[:3] in filename
+                        assert chapterEndId[:3] in filename.upper()
                         assert chapterEndId[3] == ' '
                         assert chapterEndId[4:] == C
                     else:
@@ -122,7 +122,7 @@ class USXXMLBibleBook( BibleBook ):
                     elif attrib=='pubnumber': pubNumber = value
                     elif attrib=='sid':
                         chapterStartId = value
-                        assert chapterStartId[:3] in filename
+                        assert chapterStartId[:3] in filename.upper()
                         assert chapterStartId[3] == ' '
                         assert chapterStartId[4:] == C
                     else:
@@ -162,7 +162,7 @@ class USXXMLBibleBook( BibleBook ):
                 for attrib,value in verseNumberElement.items():
                     if attrib=='eid':
                         verseEndId = value
-                        assert verseEndId[:3] in filename
+                        assert verseEndId[:3] in filename.upper()
                         assert verseEndId[3] == ' '
                         colonIx = verseEndId.index( ':' )
                         assert verseEndId[4:colonIx] == C
@@ -181,7 +181,7 @@ class USXXMLBibleBook( BibleBook ):
                     elif attrib=='pubnumber': pubNumber = value # TODO: not used anywhere!
                     elif attrib=='sid':
                         verseStartId = value
-                        assert verseStartId[:3] in filename
+                        assert verseStartId[:3] in filename.upper()
                         assert verseStartId[3] == ' '
                         colonIx = verseStartId.index( ':' )
                         assert verseStartId[4:colonIx] == C
@@ -399,7 +399,7 @@ class USXXMLBibleBook( BibleBook ):
                 if attrib=='style': paragraphStyle = value # This is basically the USFM marker name
                 elif attrib=='vid':
                     paragraphVerseId = value
-                    assert paragraphVerseId[:3] in filename
+                    assert paragraphVerseId[:3] in filename.upper()
                     assert paragraphVerseId[3] == ' '
                     colonIx = paragraphVerseId.index( ':' )
                     assert paragraphVerseId[4:colonIx] == C
-- 
2.43.0


From c84abe61eeacd7b43a04c67a6530c713b06df410 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 105/187] fix: compare the id in a USFM file with that of its
 name

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index b100834..7f5826f 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -452,9 +452,9 @@ class USFMFilenames:
                     if USFMId is None:
                         logging.error( "{}internal USFM Id missing for {} in {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', BBB, derivedFilename ) )
                         continue # so it doesn't get added
-                    BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
-                    if BBB != BBB:
-                        logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if BBB==USFMId else " -> {}".format(BBB), BBB, derivedFilename ) )
+                    internalBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
+                    if internalBBB != BBB:
+                        logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if internalBBB==USFMId else " -> {}".format(internalBBB), BBB, derivedFilename ) )
                         continue # so it doesn't get added
                 self.doListAppend( BBB, derivedFilename, resultList, "getConfirmedFilenameTuples" )
         self.lastTupleList = resultList
-- 
2.43.0


From 667c8bb6bec5e783443a84a935edaf772dc05354 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 106/187] fix: prefer id lines to parts of filenames when both
 give as many books

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 7f5826f..4cde502 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -522,7 +522,8 @@ class USFMFilenames:
         if len(resultListExt) > len(resultList):
             resultString, resultList = 'External', resultListExt
         resultListInt = self.getPossibleFilenameTuplesInt()
-        if len(resultListInt) > len(resultList):
+        if len(resultListInt) > len(resultList) \
+        or ( resultString=='External' and len(resultListInt) == len(resultList) ): # The id lines are more reliable than part of a filename
             resultString, resultList = 'Internal', resultListInt
         vPrint( 'Info', DEBUGGING_THIS_MODULE, f"getMaximumPossibleFilenameTuples: using {resultString} ({len(resultList)})" )
 
-- 
2.43.0


From d4d07ac5ada4de4d2261dfb005618c76f8348413 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 107/187] fix: USFX loading put a space before a comma after a
 styled word or a note

---
 BibleOrgSys/Formats/USFXXMLBible.py | 68 +++++++++++++++++------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 07411b3..213fb2b 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -48,6 +48,7 @@ Module for defining and manipulating complete or partial USFX Bibles.
 """
 from gettext import gettext as _
 import os
+import re
 import sys
 import logging
 from pathlib import Path
@@ -207,6 +208,17 @@ def clean( elementText ):
         return elementText.strip().replace( '\r\n', ' ' ).replace( '\n', ' ' ).replace( '\r', ' ' )
 # end of clean
 
+def cleanInline( elementText ) -> str:
+    """
+    Given some text in, before, or after an inline XML element (which might be None)
+        return it with newlines and multiple spaces replaced by single spaces.
+
+    Leading and trailing spaces are kept because they (or their absence) determine
+        whether the element is joined to the text (e.g., a following comma) or not.
+    """
+    return re.sub( '[ \t\r\n]+', ' ', elementText ) if elementText else ''
+# end of cleanInline
+
 
 
 class USFXXMLBible( Bible ):
@@ -471,7 +483,7 @@ class USFXXMLBible( Bible ):
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 self.thisBook.addLine( 'c', C )
             elif element.tag == 's':
-                sText = clean( element.text )
+                sText = cleanInline( element.text ).lstrip()
                 BibleOrgSysGlobals.checkXMLNoTail( element, location, 'wxg0' )
                 level = None
                 for attrib,value in element.items():
@@ -483,7 +495,7 @@ class USFXXMLBible( Bible ):
                 marker = 's'
                 if level: marker += level
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "loadBook cd536", repr(marker), repr(sText) )
-                self.thisBook.addLine( marker, '' if sText is None else sText )
+                self.thisBook.addLine( marker, sText )
                 for subelement in element:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "subelement", repr(subelement.tag) )
                     sublocation = subelement.tag + " of " + location
@@ -505,7 +517,7 @@ class USFXXMLBible( Bible ):
             elif element.tag in ('p','q','d',):
                 V = self.loadParagraph( element, location, BBB, C )
             elif element.tag == 'v': # verse milestone outside of a paragraph
-                vTail = clean( element.tail ) # Main verse text
+                vTail = cleanInline( element.tail ).lstrip() # Main verse text
                 BibleOrgSysGlobals.checkXMLNoText( element, location, 'djf3' )
                 BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'jsh2' )
                 lastV, V = V, None
@@ -517,7 +529,7 @@ class USFXXMLBible( Bible ):
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                 assert V is not None
                 assert V
-                self.thisBook.addLine( 'v', V + ((' '+vTail) if vTail else '' ) )
+                self.thisBook.addLine( 'v', V + ' ' + vTail )
             elif element.tag == 'b':
                 BibleOrgSysGlobals.checkXMLNoText( element, location, 'ks35' )
                 BibleOrgSysGlobals.checkXMLNoTail( element, location, 'gs35' )
@@ -584,7 +596,7 @@ class USFXXMLBible( Bible ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("USFXXMLBible.loadParagraph: Loading {} from {}…").format( self.name, self.sourceFolder ) )
 
         V = None
-        pTag, pText = paragraphElement.tag, clean(paragraphElement.text)
+        pTag, pText = paragraphElement.tag, cleanInline(paragraphElement.text).lstrip()
         BibleOrgSysGlobals.checkXMLNoTail( paragraphElement, paragraphLocation, 'vsg7' )
 
         # Process the attributes first
@@ -607,13 +619,13 @@ class USFXXMLBible( Bible ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(pTag), repr(pText), repr(style) )
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Ignoring {!r} style".format( style ) )
 
-        self.thisBook.addLine( pTag, '' if pText is None else pText )
+        self.thisBook.addLine( pTag, pText )
 
         for element in paragraphElement:
             location = element.tag + " of " + paragraphLocation
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "element", repr(element.tag) )
             if element.tag == 'v': # verse milestone
-                vTail = clean( element.tail ) # Main verse text
+                vTail = cleanInline( element.tail ).lstrip() # Main verse text
                 BibleOrgSysGlobals.checkXMLNoText( element, location, 'crc2' )
                 BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'lct3' )
                 lastV, V = V, None
@@ -626,7 +638,7 @@ class USFXXMLBible( Bible ):
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                 assert V is not None
                 assert V
-                self.thisBook.addLine( 'v', V + ((' '+vTail) if vTail else '' ) )
+                self.thisBook.addLine( 'v', V + ' ' + vTail )
             elif element.tag == 've': # verse end milestone -- we can just ignore this
                 BibleOrgSysGlobals.checkXMLNoText( element, location, 'lsc3' )
                 BibleOrgSysGlobals.checkXMLNoTail( element, location, 'mfy4' )
@@ -647,7 +659,7 @@ class USFXXMLBible( Bible ):
             elif element.tag in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
                 self.loadCharacterFormatting( element, location, BBB, C, V )
             elif element.tag == 'cs': # character style -- seems like a USFX hack
-                text, tail = clean(element.text), clean(element.tail)
+                text, tail = cleanInline(element.text), cleanInline(element.tail)
                 BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'kf92' )
                 sfm = None
                 for attrib,value in element.items():
@@ -656,7 +668,7 @@ class USFXXMLBible( Bible ):
                         logging.warning( _("sh29 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 if sfm not in ('w','ior',): vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "cs sfm got", repr(sfm) )
-                self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( sfm, text, sfm, (' '+tail) if tail else '' ) )
+                self.thisBook.appendToLastLine( '\\{} {}\\{}*{}'.format( sfm, text, sfm, tail ) )
             elif element.tag in ('cp',): # Simple single-line paragraph-level markers
                 marker, text = element.tag, clean(element.text)
                 BibleOrgSysGlobals.checkXMLNoTail( element, location, 'kdf0' )
@@ -664,7 +676,7 @@ class USFXXMLBible( Bible ):
                 BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'da13' )
                 self.thisBook.addLine( marker, text )
             elif element.tag == 'ref': # encoded reference -- seems like a USFX hack
-                text, tail = clean(element.text), clean(element.tail)
+                text, tail = cleanInline(element.text), cleanInline(element.tail)
                 BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'bd83' )
                 target = None
                 for attrib,value in element.items():
@@ -673,7 +685,7 @@ class USFXXMLBible( Bible ):
                         logging.warning( _("be83 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 #if target not in ('w','ior',): vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref sfm got", repr(sfm) )
-                self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}{}'.format( element.tag, target, element.tag, text, (' '+tail) if tail else '' ) )
+                self.thisBook.appendToLastLine( '\\{} {}\\{}*{}{}'.format( element.tag, target, element.tag, text, tail ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Saved", '\\{} {}\\{}*{}{}'.format( element.tag, target, element.tag, text, (' '+tail) if tail else '' ) )
             elif element.tag == 'optionalLineBreak':
                 self.thisBook.appendToLastLine( '//' )
@@ -695,7 +707,7 @@ class USFXXMLBible( Bible ):
                 self.thisBook.addLine( sfm, '' )
             elif element.tag == 'gw': # e.g., <gw sfm="w" root="Vivivirei ma Viaiaina; Aiaii">vovivirei</gw> glossary word
                 BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'gw24' )
-                text, tail = clean(element.text), clean(element.tail)
+                text, tail = cleanInline(element.text), cleanInline(element.tail)
                 sfm = root = None
                 for attrib,value in element.items():
                     if attrib == 'sfm': sfm = value
@@ -703,7 +715,7 @@ class USFXXMLBible( Bible ):
                     else:
                         logging.warning( _("gcd2 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-                self.thisBook.appendToLastLine( ' \\{} {}\\{}* {}'.format( sfm, text, sfm, tail ) )
+                self.thisBook.appendToLastLine( '\\{} {}\\{}*{}'.format( sfm, text, sfm, tail ) )
                 logging.error( "What should we do with the gw root value: {!r} ?".format( root ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             elif element.tag == 'xt' and BBB == 'GLS':
@@ -722,10 +734,10 @@ class USFXXMLBible( Bible ):
     def loadWordFormatting( self, element, location, BBB:str, C:str, V ):
         """
         """
-        marker, text, tail = element.tag, clean(element.text), clean(element.tail)
+        marker, text, tail = element.tag, cleanInline(element.text), cleanInline(element.tail)
         assert marker == 'w'
         BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'bs62' )
-        self.thisBook.appendToLastLine( ' \\{}'.format( marker ) )
+        self.thisBook.appendToLastLine( '\\{}'.format( marker ) )
         strongs = None
         for attrib,value in element.items():
             if attrib == 's':
@@ -746,15 +758,15 @@ class USFXXMLBible( Bible ):
             else:
                 logging.warning( _("sh61 Unprocessed {} element after {} {}:{} in {}").format( repr(subelement.tag), self.thisBook.BBB, C, V, location ) )
                 if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
-        self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, (' '+tail) if tail else '' ) )
+        self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, tail ) )
 
 
     def loadCharacterFormatting( self, element, location, BBB:str, C:str, V ):
         """
         """
-        marker, text, tail = element.tag, clean(element.text), clean(element.tail)
+        marker, text, tail = element.tag, cleanInline(element.text), cleanInline(element.tail)
         BibleOrgSysGlobals.checkXMLNoAttributes( element, location, 'cb25' )
-        self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, text ) )
+        self.thisBook.appendToLastLine( '\\{} {}'.format( marker, text ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "element", repr(element.tag) )
@@ -766,7 +778,7 @@ class USFXXMLBible( Bible ):
             else:
                 logging.warning( _("sf31 Unprocessed {} element after {} {}:{} in {}").format( repr(subelement.tag), self.thisBook.BBB, C, V, location ) )
                 if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
-        self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, (' '+tail) if tail else '' ) )
+        self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, tail ) )
     # end of USFXXMLBible.loadCharacterFormatting
 
 
@@ -787,8 +799,8 @@ class USFXXMLBible( Bible ):
         newString = ''
         for j,tag in enumerate( ('description', 'catalog', 'size', 'location', 'copyright', 'caption', 'reference',) ):
             newString += ('' if j==0 else '|') + figDict[tag]
-        figTail = clean( element.tail )
-        self.thisBook.appendToLastLine( ' \\fig {}\\fig*{}'.format( newString, (' '+figTail) if figTail else '' ) )
+        figTail = cleanInline( element.tail )
+        self.thisBook.appendToLastLine( '\\fig {}\\fig*{}'.format( newString, figTail ) )
     # end of USFXXMLBible.loadFigure
 
 
@@ -848,7 +860,7 @@ class USFXXMLBible( Bible ):
         """
         Handles footnote fields, including xt field.
         """
-        text, tail = clean(element.text), clean(element.tail)
+        text, tail = clean(element.text), cleanInline(element.tail)
         caller = None
         for attrib,value in element.items():
             if attrib == 'caller':
@@ -856,7 +868,7 @@ class USFXXMLBible( Bible ):
             else:
                 logging.warning( _("dg35 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-        self.thisBook.appendToLastLine( ' \\f {}{}'.format( caller, (' '+text) if text else '' ) )
+        self.thisBook.appendToLastLine( '\\f {}{}'.format( caller, (' '+text) if text else '' ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
             marker, fText, fTail = subelement.tag, clean(subelement.text), clean(subelement.tail)
@@ -922,7 +934,7 @@ class USFXXMLBible( Bible ):
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             if fTail:
                 self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, fTail ) )
-        self.thisBook.appendToLastLine( '\\f*{}'.format( (' '+tail) if tail else '' ) )
+        self.thisBook.appendToLastLine( '\\f*{}'.format( tail ) )
     # end of USFXXMLBible.loadFootnote
 
 
@@ -930,7 +942,7 @@ class USFXXMLBible( Bible ):
         """
         Has to handle: <x caller="+"><ref tgt="EXO.30.12">Exodus 30:12</ref></x>
         """
-        text, tail = clean(element.text), clean(element.tail)
+        text, tail = clean(element.text), cleanInline(element.tail)
         caller = None
         for attrib,value in element.items():
             if attrib == 'caller':
@@ -938,7 +950,7 @@ class USFXXMLBible( Bible ):
             else:
                 logging.warning( _("fhj2 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-        self.thisBook.appendToLastLine( ' \\x {}'.format( caller ) )
+        self.thisBook.appendToLastLine( '\\x {}'.format( caller ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
             marker, xText, xTail = subelement.tag, clean(subelement.text), clean(subelement.tail)
@@ -985,7 +997,7 @@ class USFXXMLBible( Bible ):
                 else: halt
             if xTail:
                 self.thisBook.appendToLastLine( '\\{}*{}'.format( marker, xTail ) )
-        self.thisBook.appendToLastLine( '\\x*{}'.format( (' '+tail) if tail else '' ) )
+        self.thisBook.appendToLastLine( '\\x*{}'.format( tail ) )
     #end of USFXXMLBible.loadCrossreference
 # end of class USFXXMLBible
 
-- 
2.43.0


From 07052f7ac6f820277d948d862a471956d6db1ca8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 108/187] fix: USFX loading doubled the words after a style in
 a footnote

---
 BibleOrgSys/Formats/USFXXMLBible.py | 40 +++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 213fb2b..5bdc554 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -860,7 +860,7 @@ class USFXXMLBible( Bible ):
         """
         Handles footnote fields, including xt field.
         """
-        text, tail = clean(element.text), cleanInline(element.tail)
+        text, tail = cleanInline(element.text).lstrip(), cleanInline(element.tail)
         caller = None
         for attrib,value in element.items():
             if attrib == 'caller':
@@ -868,10 +868,10 @@ class USFXXMLBible( Bible ):
             else:
                 logging.warning( _("dg35 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-        self.thisBook.appendToLastLine( '\\f {}{}'.format( caller, (' '+text) if text else '' ) )
+        self.thisBook.appendToLastLine( '\\f {} {}'.format( caller, text ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
-            marker, fText, fTail = subelement.tag, clean(subelement.text), clean(subelement.tail)
+            marker, fText, fTail = subelement.tag, cleanInline(subelement.text), cleanInline(subelement.tail)
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFX.loadFootnote", repr(caller), repr(text), repr(tail), repr(marker), repr(fText), repr(fTail) )
             if BibleOrgSysGlobals.verbosityLevel > 0 and marker not in ('ref','fr','ft','fq','fv','fk','fqa','it','bd','rq','w'):
                 logging.warning( "USFX.loadFootnote found {!r} {!r} {!r} {!r}".format( caller, marker, fText, fTail ) )
@@ -889,17 +889,21 @@ class USFXXMLBible( Bible ):
                         logging.warning( _("gs35 Unprocessed {} attribute ({}) in {}").format( attrib, value, sublocation ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                 if target:
-                    self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( marker, target, marker, fText ) )
+                    self.thisBook.appendToLastLine( '\\{} {}\\{}*{}'.format( marker, target, marker, fText ) )
                 else: halt
             elif marker=='w':
-                self.loadWordFormatting( subelement, sublocation, BBB, C, V )
+                self.loadWordFormatting( subelement, sublocation, BBB, C, V ) # This also appends the tail
+                fTail = ''
+            elif marker in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
+                self.loadCharacterFormatting( subelement, sublocation, BBB, C, V ) # This also appends the tail
+                fTail = ''
             else:
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'dq54' )
-                self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, fText ) )
+                self.thisBook.appendToLastLine( '\\{} {}'.format( marker, fText ) )
                 if marker=='xt' or marker[0]=='f': # Starts with f, e.g., fr, ft
                     for sub2element in subelement:
                         sub2location = sub2element.tag + " of " + sublocation
-                        marker2, fText2, fTail2 = sub2element.tag, clean(sub2element.text), clean(sub2element.tail)
+                        marker2, fText2, fTail2 = sub2element.tag, cleanInline(sub2element.text), cleanInline(sub2element.tail)
                         BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'js72' ) # Wrong! has bd XXXXXXXXXX
                         if marker2 == 'ref':
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, sub2location )
@@ -918,17 +922,15 @@ class USFXXMLBible( Bible ):
                             else:
                                 if DEBUGGING_THIS_MODULE: halt
                         elif marker2 == 'w':
-                            self.loadWordFormatting( sub2element, sub2location, BBB, C, V )
+                            self.loadWordFormatting( sub2element, sub2location, BBB, C, V ) # This also appends the tail
+                            fTail2 = ''
                         elif marker2 in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
-                            self.loadCharacterFormatting( sub2element, sub2location, BBB, C, V )
+                            self.loadCharacterFormatting( sub2element, sub2location, BBB, C, V ) # This also appends the tail
+                            fTail2 = ''
                         else:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Ignored marker2', repr(marker2), BBB, C, V )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                         if fTail2: self.thisBook.appendToLastLine( fTail2 )
-                elif marker == 'w':
-                    self.loadWordFormatting( subelement, sublocation, BBB, C, V )
-                elif marker in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
-                    self.loadCharacterFormatting( subelement, sublocation, BBB, C, V )
                 else:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Ignored marker', repr(marker), BBB, C, V )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
@@ -942,7 +944,7 @@ class USFXXMLBible( Bible ):
         """
         Has to handle: <x caller="+"><ref tgt="EXO.30.12">Exodus 30:12</ref></x>
         """
-        text, tail = clean(element.text), cleanInline(element.tail)
+        text, tail = cleanInline(element.text).lstrip(), cleanInline(element.tail)
         caller = None
         for attrib,value in element.items():
             if attrib == 'caller':
@@ -950,10 +952,10 @@ class USFXXMLBible( Bible ):
             else:
                 logging.warning( _("fhj2 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-        self.thisBook.appendToLastLine( '\\x {}'.format( caller ) )
+        self.thisBook.appendToLastLine( '\\x {} '.format( caller ) )
         for subelement in element:
             sublocation = subelement.tag + " of " + location
-            marker, xText, xTail = subelement.tag, clean(subelement.text), clean(subelement.tail)
+            marker, xText, xTail = subelement.tag, cleanInline(subelement.text), cleanInline(subelement.tail)
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFX.loadCrossreference", repr(caller), repr(text), repr(tail), repr(marker), repr(xText), repr(xTail) )
             #if BibleOrgSysGlobals.verbosityLevel > 0 and marker not in ('ref','xo','xt',):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USFX.loadCrossreference found", repr(caller), repr(marker), repr(xText), repr(xTail) )
@@ -968,15 +970,15 @@ class USFXXMLBible( Bible ):
                         logging.warning( _("aj41 Unprocessed {} attribute ({}) in {}").format( attrib, value, sublocation ) )
                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                 if target:
-                    self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( marker, target, marker, xText ) )
+                    self.thisBook.appendToLastLine( '\\{} {}\\{}*{}'.format( marker, target, marker, xText ) )
                 else: halt
             else: # xo or xt
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'sc35' )
-                self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, xText ) )
+                self.thisBook.appendToLastLine( '\\{} {}'.format( marker, xText ) )
                 if marker[0] == 'x': # Starts with x, e.g., xo, xt
                     for sub2element in subelement:
                         sub2location = sub2element.tag + " of " + sublocation
-                        marker2, xText2, xTail2 = sub2element.tag, clean(sub2element.text), clean(sub2element.tail)
+                        marker2, xText2, xTail2 = sub2element.tag, cleanInline(sub2element.text), cleanInline(sub2element.tail)
                         BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'fs63' )
                         if marker2=='ref':
                             if xText2:
-- 
2.43.0


From 4da6b98fb8668fa1792cc2c794a4287b27fa2664 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 109/187] fix: OSIS loading dropped the space between two
 styled words

---
 BibleOrgSys/Formats/OSISXMLBible.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index a316943..896a8a6 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -635,7 +635,7 @@ class OSISXMLBible( Bible ):
                 loadErrors.append( "Unprocessed {!r} subelement ({}) in {} at {} (v4g7)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
         thisBook.appendToLastLine( '\\nd*' )
-        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) )
+        if element.tail: thisBook.appendToLastLine( clean(element.tail) ) # Could be only a space
     # end of validateDivineName
 
 
@@ -834,7 +834,7 @@ class OSISXMLBible( Bible ):
                 logging.error( "bdhj Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (bdhj)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-        if highlightedTail and highlightedTail.strip(): thisBook.appendToLastLine( clean(highlightedTail) )
+        if highlightedTail: thisBook.appendToLastLine( clean(highlightedTail) ) # Could be only a space
     # end of validateHighlight
 
 
@@ -896,7 +896,7 @@ class OSISXMLBible( Bible ):
                 logging.error( "3dxm Unprocessed {!r} subelement ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 loadErrors.append( "Unprocessed {!r} subelement ({}) in {} at {} (3dxm)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) )
+        if element.tail: thisBook.appendToLastLine( clean(element.tail) ) # Could be only a space
     # end of validateRDG
 
 
@@ -908,7 +908,7 @@ class OSISXMLBible( Bible ):
         BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'ks91', loadErrors )
         divineName = element.text
         thisBook.appendToLastLine( '\\pn {}\\pn*'.format( clean(divineName) ) )
-        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) )
+        if element.tail: thisBook.appendToLastLine( clean(element.tail) ) # Could be only a space
     # end of validateProperName
 
 
@@ -1298,7 +1298,7 @@ class OSISXMLBible( Bible ):
                 loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (1d54)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
         if openFieldname: thisBook.appendToLastLine( '\\{}*'.format( openFieldname ) )
-        #if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) )
+        #if element.tail: thisBook.appendToLastLine( clean(element.tail) ) # Could be only a space
         noteTail = clean( element.tail, loadErrors, location, verseMilestone )
         if noteTail: thisBook.appendToLastLine( noteTail )
     # end of OSISXMLBible.validateCrossReferenceOrFootnote
-- 
2.43.0


From 502f42d09b0fe24fb3aa2d5ba24a137c906ecc63 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 110/187] fix: OSIS loading failed with a NameError at a name
 element

---
 BibleOrgSys/Formats/OSISXMLBible.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 896a8a6..824b891 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -900,7 +900,7 @@ class OSISXMLBible( Bible ):
     # end of validateRDG
 
 
-    def validateProperName( thisBook, element, locationDescription, verseMilestone, loadErrors ):
+    def validateProperName( self, thisBook, element, locationDescription, verseMilestone, loadErrors ):
         """
         """
         location = "validateProperName: " + locationDescription
@@ -1251,7 +1251,7 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                 sublocation = "validateCrossReferenceOrFootnote: name of " + locationDescription
-                validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg': # cross-references
                 sublocation = "validateCrossReferenceOrFootnote: seg of " + locationDescription
                 self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
@@ -1331,7 +1331,7 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                 sublocation = "validateTransChange: name of transChange of " + location
-                validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
                 sublocation = "validateTransChange: note of transChange of " + location
                 self.validateCrossReferenceOrFootnote( thisBook, subelement, sublocation, verseMilestone, loadErrors )
@@ -2837,7 +2837,7 @@ class OSISXMLBible( Bible ):
                     self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                     sublocation = "validateParagraph: name of " + locationDescription
-                    validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                    self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                     sublocation = "validateParagraph: seg of " + locationDescription
                     self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
-- 
2.43.0


From fcb3bc7c30319cd1920cb7fa03264a4cca7e08a0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 111/187] fix: OSIS loading dropped the text after a line break

---
 BibleOrgSys/Formats/OSISXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 824b891..7b20313 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2457,8 +2457,8 @@ class OSISXMLBible( Bible ):
             BibleOrgSysGlobals.checkXMLNoText( element, location+" at "+verseMilestone, 'cf4g', loadErrors )
             BibleOrgSysGlobals.checkXMLNoAttributes( element, location+" at "+verseMilestone, '5t3x', loadErrors )
             BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'sn52', loadErrors )
-            BibleOrgSysGlobals.checkXMLNoTail( element, location+" at "+verseMilestone, '3c5f', loadErrors )
-            thisBook.addLine( 'm', '' )
+            lbTail = clean( element.tail, loadErrors, location, verseMilestone ) # The text on the new line
+            thisBook.addLine( 'm', lbTail.lstrip() if lbTail else '' )
         # end of OSISXMLBible.validateLB
 
 
-- 
2.43.0


From b8b2867a61eadeb03174ba15e99eefbc146bee32 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 112/187] fix: OSIS loading dropped the rest of a verse
 container after its first words

---
 BibleOrgSys/Formats/OSISXMLBible.py | 35 ++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 7b20313..c52ad89 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -3381,9 +3381,17 @@ class OSISXMLBible( Bible ):
                             sublocation = "verse of " + location
                             verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'vM', verseMilestone ); halt
-                            if verseMilestone and verseMilestone.startswith('verseContainer.'): # it must have been a container -- process the subelements
+                            if verseMilestone and verseMilestone.startswith(('verseContainer.','verseContents#')): # it must have been a container -- process the text and the subelements
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Yikes!" ) # Why??????????????
-                                thisBook.addLine( 'v', verseMilestone[15:]+' ' ) # Remove the 'verseContainer.' prefix
+                                if verseMilestone.startswith('verseContainer.'):
+                                    thisBook.addLine( 'v', verseMilestone[15:]+' ' ) # Remove the 'verseContainer.' prefix
+                                else: # there's text in front of any subelements
+                                    bits = verseMilestone.split( '#', 2 )
+                                    if BibleOrgSysGlobals.debugFlag: assert len(bits) == 3
+                                    if BibleOrgSysGlobals.debugFlag: assert bits[0] == 'verseContents'
+                                    if BibleOrgSysGlobals.debugFlag: assert bits[1].isdigit()
+                                    if BibleOrgSysGlobals.debugFlag: assert bits[2]
+                                    thisBook.addLine( 'v', bits[1] + ' ' + clean(bits[2]).lstrip() )
                                 for sub2element in subelement:
                                     if sub2element.tag == OSISXMLBible.OSISNameSpace+'w':
                                         sub2location = "w of " + sublocation
@@ -3497,23 +3505,20 @@ class OSISXMLBible( Bible ):
                                                     #logging.error( "9y5g Unprocessed {!r} sub-element ({}) in {} at {}".format( sub3element.tag, sub3element.text, sub2location, verseMilestone ) )
                                                     #loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (9y5g)".format( sub3element.tag, sub3element.text, sub2location, verseMilestone ) )
                                                     #if BibleOrgSysGlobals.debugFlag: halt
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'divineName':
+                                        self.validateDivineName( thisBook, sub2element, "divineName of " + sublocation, verseMilestone, loadErrors )
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'transChange':
+                                        self.validateTransChange( thisBook, sub2element, sublocation, verseMilestone, loadErrors )
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'hi':
+                                        self.validateHighlight( thisBook, sub2element, "hi of " + sublocation, verseMilestone, loadErrors )
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'name':
+                                        self.validateProperName( thisBook, sub2element, "name of " + sublocation, verseMilestone, loadErrors )
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'lb':
+                                        validateLB( thisBook, sub2element, "lb of " + sublocation, verseMilestone )
                                     else:
                                         logging.error( "05kq Unprocessed {!r} sub-element {} in {} at {}".format( sub2element.tag, repr(sub2element.text), sublocation, verseMilestone ) )
                                         loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (05kq)".format( sub2element.tag, repr(sub2element.text), sublocation, verseMilestone ) )
                                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-                            elif verseMilestone and verseMilestone.startswith('verseContents#'): # it must have been a container -- process the string
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "verseContents", verseMilestone )
-                                bits = verseMilestone.split( '#', 2 )
-                                if BibleOrgSysGlobals.debugFlag: assert len(bits) == 3
-                                if BibleOrgSysGlobals.debugFlag: assert bits[0] == 'verseContents'
-                                if BibleOrgSysGlobals.debugFlag: assert bits[1].isdigit()
-                                if BibleOrgSysGlobals.debugFlag: assert bits[2]
-                                thisData = bits[1]
-                                if bits[2].strip(): thisData += ' ' + bits[2].replace('\n','')
-                                #assert bits[2].strip()
-                                thisBook.addLine( 'v', thisData )
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, USFMResults[-4:] )
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'CHOCOLATE', thisBook._rawLines[-4:] )
                         else:
                             logging.error( "4s9j Unprocessed {!r} sub-element {} in {} at {}".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
                             loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (4s9j)".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
-- 
2.43.0


From 78dab7eed4fb80a453fac515001ffefa85f5ea13 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 113/187] fix: OSIS loading dropped the words of Jesus (q
 elements in paragraphs)

---
 BibleOrgSys/Formats/OSISXMLBible.py | 43 +++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index c52ad89..b7e3cd4 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1304,6 +1304,44 @@ class OSISXMLBible( Bible ):
     # end of OSISXMLBible.validateCrossReferenceOrFootnote
 
 
+    def validateQuote( self, thisBook, element, locationDescription, verseMilestone, loadErrors ):
+        """
+        Handle a q (quotation) element inside a paragraph (as written by our own OSIS exporter for words of Jesus).
+
+        Also handles the tail.
+        """
+        assert isinstance( thisBook, BibleBook )
+        location = "validateQuote: " + locationDescription
+        qWho = None
+        for attrib,value in element.items():
+            if attrib=='who': qWho = value
+            elif attrib not in ('marker','level','type','sID','eID'):
+                logging.warning( "8w2q Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, location, verseMilestone ) )
+                loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (8w2q)".format( attrib, value, location, verseMilestone ) )
+                if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
+        isWJ = qWho=='Jesus' and ( element.text or len(element) )
+        qText = clean(element.text) if element.text else ''
+        thisBook.appendToLastLine( f'\\wj {qText}' if isWJ else qText )
+        for subelement in element:
+            if subelement.tag == OSISXMLBible.OSISNameSpace+'w':
+                self.validateAndLoadWord( thisBook, subelement, location, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'transChange':
+                self.validateTransChange( thisBook, subelement, location, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'divineName':
+                self.validateDivineName( thisBook, subelement, location, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'hi':
+                self.validateHighlight( thisBook, subelement, location, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
+                self.validateCrossReferenceOrFootnote( thisBook, subelement, location, verseMilestone, loadErrors )
+            else:
+                logging.error( "8w3q Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
+                loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (8w3q)".format( subelement.tag, subelement.text, location, verseMilestone ) )
+                if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
+        if isWJ: thisBook.appendToLastLine( '\\wj*' )
+        if element.tail: thisBook.appendToLastLine( clean(element.tail) )
+    # end of validateQuote
+
+
     def validateTransChange( self, thisBook, element, location, verseMilestone, loadErrors ):
         """
         Handle a transChange element and return a string.
@@ -2835,6 +2873,9 @@ class OSISXMLBible( Bible ):
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'divineName':
                     sublocation = "validateParagraph: divineName of " + locationDescription
                     self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                elif subelement.tag == OSISXMLBible.OSISNameSpace+'q':
+                    sublocation = "validateParagraph: q of " + locationDescription
+                    self.validateQuote( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'name':
                     sublocation = "validateParagraph: name of " + locationDescription
                     self.validateProperName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
@@ -3513,6 +3554,8 @@ class OSISXMLBible( Bible ):
                                         self.validateHighlight( thisBook, sub2element, "hi of " + sublocation, verseMilestone, loadErrors )
                                     elif sub2element.tag == OSISXMLBible.OSISNameSpace+'name':
                                         self.validateProperName( thisBook, sub2element, "name of " + sublocation, verseMilestone, loadErrors )
+                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'q':
+                                        self.validateQuote( thisBook, sub2element, "q of " + sublocation, verseMilestone, loadErrors )
                                     elif sub2element.tag == OSISXMLBible.OSISNameSpace+'lb':
                                         validateLB( thisBook, sub2element, "lb of " + sublocation, verseMilestone )
                                     else:
-- 
2.43.0


From 8dabaa81774cf9564e1093d40654e2ed020430c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 114/187] fix: hold a note on a chapter or verse number only
 once

---
 BibleOrgSys/Internals/InternalBibleBook.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 95e81c7..04bee8a 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2408,13 +2408,8 @@ class InternalBibleBook:
                         self.addPriorityError( 30 if '\f ' in cBits[1] else 98, C, V, _("Extra {!r} material after chapter number").format( cBits[1] ) )
                         if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on c line", self.BBB, C, V, repr(text), repr(cBits[1]) )
-                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, cBits[1], fixErrors )
-                        if (adjText or cleanText or extras) and BibleOrgSysGlobals.debugFlag:
-                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on c line", self.BBB, C, V, repr(text), repr(cBits[1]) )
-                            if adjText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " adjText:", repr(adjText) )
-                            if cleanText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " cleanText:", repr(cleanText) )
-                            if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " extras:", extras )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, extras, C) ) # Write the chapter number as a separate line
+                        # Note: The extra material (e.g., a footnote on the chapter number) is handled with the c~ field below
+                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, None, C) ) # Write the chapter number as a separate line
                         adjustedMarker, text = 'c~', cBits[1]
             elif originalMarker=='cp' and text:
                 V = '0'
@@ -2515,16 +2510,8 @@ class InternalBibleBook:
                     if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                         assert verseNumberBit and verseNumberRest
                         assert '\\' not in verseNumberBit
-                    if len(vBits)>2: # rarely happens (e.g., footnote on verse number)
-                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, vBits[1], fixErrors )
-                        if (adjText or cleanText or extras) and BibleOrgSysGlobals.debugFlag:
-                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on v line", self.BBB, C, V, repr(text), repr(vBits[1]) )
-                            if adjText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " adjText:", repr(adjText) )
-                            if cleanText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " cleanText:", repr(cleanText) )
-                            if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, " extras:", extras )
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, extras, verseNumberBit) ) # Write the verse number (or range) as a separate line
-                    else:
-                        self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, None, verseNumberBit) ) # Write the verse number (or range) as a separate line
+                    # Note: A footnote on the verse number stays with the rest of the text so it'll be handled with the v~ field below
+                    self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, verseNumberBit, verseNumberBit, None, verseNumberBit) ) # Write the verse number (or range) as a separate line
 
                     strippedVerseText = verseNumberRest.lstrip()
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "QQQ9: lstrip" )
-- 
2.43.0


From a3b0505cf9131f085574d80104c6ab1756f141e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 115/187] fix: close a list which ends inside a verse

---
 BibleOrgSys/Internals/InternalBibleBook.py | 31 ++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 04bee8a..e91fac2 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1616,6 +1616,27 @@ class InternalBibleBook:
             # end of _addNestingMarkers._findNextRelevantListMarker
 
 
+            def _listHasEnded( currentIndex:int ) -> bool:
+                """
+                Determines if the list which is still open continues at or after the given line
+                    i.e., if the next paragraph is another list entry
+                """
+                hadHeading = False
+                for k in range( currentIndex, number_of_processed_lines ):
+                    nextMarker = self._processedLines[k].getMarker()
+                    if nextMarker in OUR_MAIN_TEXT_LIST_MARKERS:
+                        return False
+                    if nextMarker in USFM_BIBLE_PARAGRAPH_MARKERS and nextMarker != 'nb':
+                        return True
+                    if nextMarker in OUR_HEADING_MARKERS or nextMarker in OUR_HEADING_BLOCK_MARKERS:
+                        hadHeading = True
+                    elif nextMarker in ( 'v~','p~', ):
+                        return hadHeading # Without a heading, the text still belongs to the last list entry
+                    # Otherwise, keep looping and looking
+                return True # at end of file
+            # end of _addNestingMarkers._listHasEnded
+
+
             # Main loop in _addNestingMarkers
             marker, text = dataLine.getMarker(), dataLine.getCleanText()
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
@@ -1666,6 +1687,16 @@ class InternalBibleBook:
                 dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"Shall we close '{marker}' given {_findNextRelevantListMarker(j)=} and {_findNextRelevantMarker(j)=} @ {self.BBB}_{C}:{V}" )
                 if _findNextRelevantListMarker(j) not in OUR_MAIN_TEXT_LIST_MARKERS:
                     _closeLastOpenMarker( 'list' )
+            if 'list' in openMarkers \
+            and ( marker in ('c','v=') or marker in OUR_HEADING_MARKERS or marker in OUR_HEADING_BLOCK_MARKERS
+                or ( marker in USFM_BIBLE_PARAGRAPH_MARKERS and marker not in OUR_MAIN_TEXT_LIST_MARKERS ) ) \
+            and _listHasEnded( j ): # The list was inside a verse, so the verse and/or the list entry are still open
+                if 'v' in openMarkers and ( marker=='c' or _verseHasEnded( j ) ):
+                    _closeOpenMarker( 'v', V )
+                if lastPMarker in OUR_MAIN_TEXT_LIST_MARKERS and lastPMarker in openMarkers:
+                    _closeOpenMarker( lastPMarker ); lastPMarker = None
+                _closeOpenMarker( 'list' )
+                lastOpenMarker = _getLastOpenMarker()
 
             if marker == 'c':
                 # print( f"  At 'c' {self.BBB}_{C}:{V} with {lastOpenMarker=} {openMarkers=}" )
-- 
2.43.0


From 9ff6bc2b81e2f327e37b6de3304645b7c5fef838 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 116/187] fix: close the introduction after an outline

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index e91fac2..2f0d6b6 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1682,6 +1682,7 @@ class InternalBibleBook:
             lastOpenMarker = _getLastOpenMarker()
             if lastOpenMarker=='iot' and marker not in OUR_INTRO_OUTLINE_MARKERS: _closeLastOpenMarker( 'iot' )
             if lastOpenMarker=='ilist' and marker not in OUR_INTRO_LIST_MARKERS: _closeLastOpenMarker( 'ilist' )
+            lastOpenMarker = _getLastOpenMarker() # coz the introduction might be open around them
             if lastOpenMarker=='list' and marker not in OUR_MAIN_TEXT_LIST_MARKERS and marker not in ('v~','p~'):
                 # This is more complex coz can cross v and c boundaries
                 dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"Shall we close '{marker}' given {_findNextRelevantListMarker(j)=} and {_findNextRelevantMarker(j)=} @ {self.BBB}_{C}:{V}" )
-- 
2.43.0


From 8cb386edc0425c60bef6b989f3b746a1c1867f2c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 117/187] fix: return a verse range asked for by name once

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index fae2409..ec41bea 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -336,7 +336,9 @@ class InternalBibleBookCVIndex:
 
         # Now look for specific verses that match
         try:
-            indexEntries.append( self.__indexData[CVkey] )
+            indexEntry = self.__indexData[CVkey]
+            if indexEntry not in indexEntries: # A range or a partial verse asked for by its own name has been found above
+                indexEntries.append( indexEntry )
         except KeyError:
             dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextB {self.workName} was unable to immediately find {self.BBB} {CVkey=}")
             if strict or CVkey[0]=='-1': # strict selection or else in the introduction (no verse ranges there)
-- 
2.43.0


From f91cbcca7a02042c93e0c32763da6272ba165b16 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 118/187] fix: put the verse-start line before every heading of
 a verse

---
 BibleOrgSys/Internals/InternalBibleBook.py | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 2f0d6b6..72c906b 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2052,7 +2052,7 @@ class InternalBibleBook:
         newLines = InternalBibleEntryList()
         fieldsPreceded = ('s','s1','s2','s3','s4','sp')
         fieldsAlsoPreceded = USFM_ALL_BIBLE_PARAGRAPH_MARKERS \
-                                + ('c#','r','d','ms1','mr','sr','sp','ib','b','nb','cl¤','tr')
+                                + ('c#','r','d','ms1','mr','sr','sp','ib','b','nb','cl¤','tr', 'list','vp#','qa','qc')
         # NOTE: This code can add multiple v= lines if a sp follows a s1, etc.
 
         C, V = '-1', '-1' # So first/id line starts at -1:0
@@ -2065,17 +2065,17 @@ class InternalBibleBook:
 
             if marker in fieldsPreceded:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Looking ahead after {} {}:{} {!r} field…".format( self.BBB, C, V, marker ) )
-                for k in range( 1, 5 ): # Number of lines to look ahead
-                    if j+k <= lastJ:
-                        nextDataEntry = self._processedLines[j+k]
-                        assert isinstance( nextDataEntry, InternalBibleEntry )
-                        nextMarker = nextDataEntry.getMarker()
-                        if nextMarker == 'v':
-                            vText = nextDataEntry.getCleanText()
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Adding v= {} at {} {}:{}".format( vText, self.BBB, C, V ) )
-                            newLines.append( InternalBibleEntry('v=', 'v', nextDataEntry.getAdjustedText(), vText, None, nextDataEntry.getOriginalText()) )
-                        #elif nextMarker in fieldsAlsoPreceded: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Noting {} line".format( nextMarker ) )
-                        elif nextMarker not in fieldsAlsoPreceded: break # got something else
+                for k in range( j+1, lastJ+1 ): # Look ahead past any other lines which introduce the verse
+                    nextDataEntry = self._processedLines[k]
+                    assert isinstance( nextDataEntry, InternalBibleEntry )
+                    nextMarker = nextDataEntry.getMarker()
+                    if nextMarker == 'v':
+                        vText = nextDataEntry.getCleanText()
+                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Adding v= {} at {} {}:{}".format( vText, self.BBB, C, V ) )
+                        newLines.append( InternalBibleEntry('v=', 'v', nextDataEntry.getAdjustedText(), vText, None, nextDataEntry.getOriginalText()) )
+                        break
+                    #elif nextMarker in fieldsAlsoPreceded: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Noting {} line".format( nextMarker ) )
+                    elif nextMarker not in fieldsAlsoPreceded: break # got something else
             newLines.append( dataEntry ) # Put pre-existing line in
 
         if self.doExtraChecking:
-- 
2.43.0


From 4fcf92e3a95eca550fce6a2bbff666415431f7a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 119/187] fix: close the last paragraph before the next chapter
 starts

---
 BibleOrgSys/Internals/InternalBibleBook.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 72c906b..7014d3f 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1722,10 +1722,14 @@ class InternalBibleBook:
                     _openMarker( 'chapters' )
                 else: # 'c' is in openMarkers so we're not just starting chapter one -- we're already in a chapter
                     nextRelevantMarker = _findNextRelevantMarker( j )
-                    if openMarkers[-1] in USFM_BIBLE_PARAGRAPH_MARKERS \
-                    and (nextRelevantMarker in USFM_BIBLE_PARAGRAPH_MARKERS or nextRelevantMarker in OUR_HEADING_MARKERS):
+                    if lastPMarker in openMarkers \
+                    and (nextRelevantMarker in USFM_BIBLE_PARAGRAPH_MARKERS
+                      or nextRelevantMarker in OUR_HEADING_MARKERS or nextRelevantMarker in OUR_HEADING_BLOCK_MARKERS):
                         # New paragraph starts immediately in next chapter, so close this paragraph now
-                        _closeLastOpenMarker( openMarkers[-1] ) # Close whatever paragraph marker that was
+                        #   (It won't be the last open marker if it already crossed a chapter boundary)
+                        if openMarkers[-1] == lastPMarker: _closeLastOpenMarker( lastPMarker )
+                        else: _closeOpenMarker( lastPMarker )
+                        lastPMarker = None
                     if openMarkers[-1] in OUR_HEADING_MARKERS and nextRelevantMarker in OUR_HEADING_MARKERS:
                         _closeLastOpenMarker( openMarkers[-1] ) # Close whatever heading marker that was
                 if openMarkers and openMarkers[-1]=='c': _closeLastOpenMarker( 'c', C )
-- 
2.43.0


From 6c073370e7711bd84e8bcdeb1e856b7e340d4616 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 120/187] fix: end the list before a major section heading

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 7014d3f..8138f8c 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1691,7 +1691,7 @@ class InternalBibleBook:
             if 'list' in openMarkers \
             and ( marker in ('c','v=') or marker in OUR_HEADING_MARKERS or marker in OUR_HEADING_BLOCK_MARKERS
                 or ( marker in USFM_BIBLE_PARAGRAPH_MARKERS and marker not in OUR_MAIN_TEXT_LIST_MARKERS ) ) \
-            and _listHasEnded( j ): # The list was inside a verse, so the verse and/or the list entry are still open
+            and ( marker in OUR_HEADING_BLOCK_MARKERS or _listHasEnded( j ) ): # The list was inside a verse, so the verse and/or the list entry are still open
                 if 'v' in openMarkers and ( marker=='c' or _verseHasEnded( j ) ):
                     _closeOpenMarker( 'v', V )
                 if lastPMarker in OUR_MAIN_TEXT_LIST_MARKERS and lastPMarker in openMarkers:
-- 
2.43.0


From 3df5e9c6fc3104f24ca2c0dca2389a8e2663d553 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 121/187] fix: count words of Jesus by their markers

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 8138f8c..0a4c6a0 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3480,11 +3480,11 @@ class InternalBibleBook:
                     sectionReferenceText = sectionReferenceText[1:-1] # Remove parenthesis
                 sectionReferences.append( (reference,sectionReferenceText) ) # This is the real data
 
-            if text and 'wj' in text:
+            if text and ( '\\wj ' in text or '\\+wj ' in text ):
                 reference = (chapterNumberStr,verseNumberStr)
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook.getAddedUnits", chapterNumberStr, verseNumberStr, marker, cleanText )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", marker, text )
-                wjCount = text.count( 'wj' ) // 2 # Assuming that half of them are \wj* end markers
+                wjCount = text.count( '\\wj ' ) + text.count( '\\+wj ' )
                 wjFirst, wjLast = text.startswith( '\\wj ' ), text.endswith( '\\wj*' )
                 wjInfo = (entry.getOriginalMarker(),wjCount,wjFirst,wjLast)
                 wordsOfJesus.append( (reference,wjInfo) ) # This is the real data
-- 
2.43.0


From 1abd0a35c48309139a392f54f431741946e12371 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 122/187] fix: don't report the parts of a split verse as out
 of order

---
 BibleOrgSys/Internals/InternalBibleBook.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0a4c6a0..85aa598 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3018,7 +3018,7 @@ class InternalBibleBook:
 
         versification, omittedVerses, combinedVerses, reorderedVerses = [], [], [], []
         chapterText, chapterNumber, lastChapterNumber = '-1', -1, -1
-        verseText = verseNumberString = lastVerseNumberString = '0'
+        verseText = verseNumberString = lastVerseNumberString = lastText = '0'
         for j, entry in enumerate( self._processedLines ):
             marker, text = entry.getMarker(), entry.getText()
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, marker, text )
@@ -3039,7 +3039,7 @@ class InternalBibleBook:
                     versificationErrors.append( _("{} ('{}' after '{}') USFM chapter numbers out of sequence in {} Bible book").format( self.BBB, chapterNumber, lastChapterNumber, self.workName ) )
                     vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("USFM chapter numbers out of sequence in {} Bible book {} ('{}' after '{}')").format( self.workName, self.BBB, chapterNumber, lastChapterNumber ) )
                 lastChapterNumber = chapterNumber
-                verseText = verseNumberString = lastVerseNumberString = '0'
+                verseText = verseNumberString = lastVerseNumberString = lastText = '0'
             elif marker == 'cp':
                 versificationErrors.append( "{} {}:{} ".format( self.BBB, chapterText, verseNumberString ) + _("Encountered cp field {}").format( self.BBB, chapterNumber, lastVerseNumberString, text ) )
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Encountered cp field '{}' after {}:{} of {}").format( text, chapterNumber, lastVerseNumberString, self.BBB ) )
@@ -3126,7 +3126,9 @@ class InternalBibleBook:
                         else: break
                     lastVerseNumber = int(newString) if newString else 999
                 if verseNumber != lastVerseNumber+1:
-                    if verseNumber <= lastVerseNumber:
+                    if verseNumber == lastVerseNumber and lastText[-1:].isalpha() and text > lastText:
+                        pass # It's the next part of a split verse, e.g., 5b after 5a
+                    elif verseNumber <= lastVerseNumber:
                         versificationErrors.append( _("{} {} ('{}' after '{}') USFM verse numbers out of sequence in Bible book").format( self.BBB, chapterText, verseText, lastVerseNumberString ) )
                         vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("USFM verse numbers out of sequence in {} Bible book {} {} ('{}' after '{}')").format( self.workName, self.BBB, chapterText, verseText, lastVerseNumberString ) )
                         reorderedVerses.append( (chapterText, lastVerseNumberString, verseText) )
@@ -3137,7 +3139,7 @@ class InternalBibleBook:
                         else: logging.error( errorMsg )
                         for number in range( lastVerseNumber+1, verseNumber ):
                             omittedVerses.append( (chapterText, str(number)) )
-                lastVerseNumberString = endVerseNumberString
+                lastVerseNumberString, lastText = endVerseNumberString, text
                 if not lastVerseNumberString.isdigit():
                     logging.error( f"getVersification value for {self.BBB}_{chapterText} is not an integer: {lastVerseNumberString!r}" )
         assert (chapterText.isdigit() or chapterText=='-1') and lastVerseNumberString.isdigit(), f"getVersification not digits {self.workName} {self.BBB} {chapterText=} {verseText=} {lastVerseNumberString=}"
-- 
2.43.0


From b7f98e8c1896e275fa5b00896ff1b50dc7a12a72 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 123/187] fix: index every section when several headings fall
 inside a verse

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index ec41bea..f58e93d 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1314,10 +1314,12 @@ class InternalBibleBookSectionIndex:
                         logging.warning( f"makeBookSectionIndex: missing section? {self.workName} {self.BBB} section index start={startC}:{startV} lEnd={lEndC}:{lEndV}" )
                     # if self.workName not in ('LEB','ULT','BSB','WEB'): # Why ??? ULT Psa 24:10 to Psa 25:0 , BSB Psa 1:1 ???, WEB SIR 51:0
                     #     assert lEndC==startC and lEndV==startV, f"makeBookSectionIndex: missing section? {self.workName} {self.BBB} section index start={startC}:{startV} lEnd={lEndC}:{lEndV}"
-                    lEndV += 'a'
+                    suffix = 'b'
+                    while (startC,f'{startV}{suffix}') in tempIndexData: suffix = chr( ord(suffix)+1 ) # More than one section heading in the verse
+                    lEndV += chr( ord(suffix)-1 )
                     tempIndexData[(lStartC,lStartV)] = (lStartC, lStartV, lEndC, lEndV, lStartIx, lEndIx,
                                                             lReasonMarker, lSectionName, lContext)
-                    startV += 'b'
+                    startV += suffix
                     break
 
             # Check that we don't overlap with the last entry
-- 
2.43.0


From aebfe2dc508fe6e99bfabf4f406b15b236a20136 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 124/187] fix: index major sections beside split verses and
 inside verses

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index f58e93d..2ef298e 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1251,8 +1251,10 @@ class InternalBibleBookSectionIndex:
 
             # HAndle \ms1 specifics (v= doesn't occur before this)
             if reasonMarker=='ms1' and startC==endC:
-                startV = str( int(startV) + 1 )
-                if int(endV) < int(startV): endV = startV
+                nextMarker = next( (entry.getMarker() for entry in self.bookObject._processedLines[startIx:] if entry.getMarker() in ('v','v~','p~')), None )
+                if nextMarker not in ('v~','p~'): # the heading's not in the middle of a verse
+                    startV = str( getLeadingInt(startV) + 1 )
+                    if getLeadingInt(endV) < int(startV): endV = startV
 
             # Do some basic checking here
             if reasonMarker != 'c':
-- 
2.43.0


From 048f773231ebd4ab2bb2f4774d970de85218bbcd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 125/187] fix: index a section which starts with a verse bridge
 under its first verse

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 2ef298e..c9719db 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1298,7 +1298,8 @@ class InternalBibleBookSectionIndex:
                 marker, text = entry.getMarker(), entry.getCleanText()
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"                  {marker}={text}" )
                 if marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
-                    if text != startV and '-' not in text: # Don't want to undo verse bridge work from above
+                    text = text.split( '-', 1 )[0] # Don't want to undo verse bridge work from above
+                    if text != startV:
                         if DEBUGGING_THIS_MODULE or startV != '0':
                             dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"           Adjusting startV from {startV} to {text}" )
                         startV = text
-- 
2.43.0


From 2f79d21278f8027a1e49fc72b51bc828e9446d02 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 126/187] fix: look at all lines of a section for its verse

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index c9719db..8a076c6 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1294,7 +1294,7 @@ class InternalBibleBookSectionIndex:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"           Incrementing startV from {startV} to {str( int(startV) + 1 )} with {reasonMarker}" )
                 #startV = str( int(startV) + 1 )
             #else:
-            for entry in self.bookObject._processedLines[startIx:endIx]:
+            for entry in self.bookObject._processedLines[startIx:endIx+1]:
                 marker, text = entry.getMarker(), entry.getCleanText()
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"                  {marker}={text}" )
                 if marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
-- 
2.43.0


From ea1427048a56a8c16455b30445eec2562af7bdb2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 127/187] fix: index a major section before the chapter number
 under that chapter

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 8a076c6..e2d7893 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1297,7 +1297,9 @@ class InternalBibleBookSectionIndex:
             for entry in self.bookObject._processedLines[startIx:endIx+1]:
                 marker, text = entry.getMarker(), entry.getCleanText()
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"                  {marker}={text}" )
-                if marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
+                if marker == 'c': # e.g., if the heading was placed before the chapter number
+                    startC, startV = text, '0'
+                elif marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
                     text = text.split( '-', 1 )[0] # Don't want to undo verse bridge work from above
                     if text != startV:
                         if DEBUGGING_THIS_MODULE or startV != '0':
-- 
2.43.0


From 7a2a97d6b592f9e9764e194ee1c4e101be3eeeb6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 128/187] fix: index two headings in the part of a verse

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index e2d7893..8da9dcb 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1335,8 +1335,9 @@ class InternalBibleBookSectionIndex:
                 #if DEBUGGING_THIS_MODULE:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"          Got previous index entry: {lStartC}:{lStartV}–{lEndC}:{lEndV} {lStartIx}–{lEndIx} {lReasonMarker}={lSectionName} {lContext}" )
                 if startC==lEndC and startV==lEndV: # We have overlapping entries
-                    if startV.isdigit(): startV = f'{startV}a'
-                    else: halt # Not sure how to handle overlapping entries
+                    suffix = 'a'
+                    while (startC,f'{startV}{suffix}') in tempIndexData: suffix = chr( ord(suffix)+1 )
+                    startV = f'{startV}{suffix}'
 
             # Save this new index entry
             if DEBUGGING_THIS_MODULE and (startC,startV) in tempIndexData:
-- 
2.43.0


From 6016883d761a355ad1f6744d5b3228207b0cc7c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 129/187] fix: findText: give positions and contexts in the
 original text when folding made it longer

---
 BibleOrgSys/Internals/InternalBible.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 86f976c..71e9e58 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2576,10 +2576,21 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         if optionsDict['ignoreDiacriticsFlag']: textToBeSearched = BibleOrgSysGlobals.removeAccents( textToBeSearched )
                         if optionsDict['caselessFlag']: textToBeSearched = textToBeSearched.lower()
                         textLen = len( textToBeSearched )
+                        # Folding can make the text longer (e.g., æ becomes ae), so then need to know which original character each one came from
+                        origIndexes = None # No adjustment needed
+                        if textLen != len( origTextToBeSearched ):
+                            origIndexes = []
+                            for jj,origChar in enumerate( origTextToBeSearched ):
+                                if optionsDict['ignoreDiacriticsFlag']: origChar = BibleOrgSysGlobals.removeAccents( origChar )
+                                if optionsDict['caselessFlag']: origChar = origChar.lower()
+                                origIndexes.extend( jj for _foldedChar in origChar )
+                            origIndexes.append( len(origTextToBeSearched) )
 
                         if optionsDict['regexFlag']: # ignores wordMode flag
                             for match in compiledFindText.finditer( textToBeSearched ):
                                 ix, ixAfter = match.span()
+                                if origIndexes: # Get the indexes into the original string
+                                    ix, ixAfter = origIndexes[ix], origIndexes[ixAfter-1]+1 if ixAfter>ix else origIndexes[ixAfter]
 
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                                     contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
@@ -2595,9 +2606,9 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
                         else: # not regExp
-                            ix = -1
+                            ixFolded = -1
                             while True:
-                                ix = textToBeSearched.find( ourFindText, ix+1 )
+                                ix = ixFolded = textToBeSearched.find( ourFindText, ixFolded+1 )
                                 if ix == -1: break
                                 ixAfter = ix + searchLen
                                 if optionsDict['wordMode'] == 'Whole':
@@ -2612,6 +2623,8 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                 elif optionsDict['wordMode'] == 'EndsLine':
                                     if ixAfter<textLen: continue
 
+                                if origIndexes: # Get the indexes into the original string
+                                    ix, ixAfter = origIndexes[ix], origIndexes[ixAfter-1]+1
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                                     contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
                                     contextAfter = origTextToBeSearched[ixAfter:ixAfter+optionsDict['contextLength']]
-- 
2.43.0


From c8476d321208797f636f183bf8bdc599ffeae54e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 130/187] fix: count figures in discovery (they're in the
 extras)

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 85aa598..0ea36a6 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3335,7 +3335,6 @@ class InternalBibleBook:
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
             if text:
                 if '\\+' in text: bkDict['haveNestedUSFMarkers'] = True
-                bkDict['figuresCount'] += text.count( '\\fig ' )
                 if marker in BOS_PRINTABLE_MARKERS: # process this main text
                     countWordsForDiscover( marker, cleanText, 'main' )
                 #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Ignoring {} {}:{} {}={}".format( self.BBB, C, V, marker, repr(text) ) )
@@ -3362,6 +3361,8 @@ class InternalBibleBook:
                         if '\\xo' in extraText: bkDict['haveCrossReferenceOrigins'] = True
                         if cleanExtraText and cleanExtraText[-1] in '.።' or cleanExtraText.endswith('.”'):
                             xrefsPeriodCount += 1
+                    elif extraType=='fig':
+                        bkDict['figuresCount'] += 1
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
-- 
2.43.0


From a1dfc70f45c1cd047ac93931bd9233cba8c51121 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 131/187] fix: discover lists even though li1 is also a
 paragraph marker

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0ea36a6..71112af 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3327,9 +3327,9 @@ class InternalBibleBook:
             elif marker in ('is1','ip','iot','io1'):
                 bkDict['haveIntroductoryMarkers'] = True
                 if text: bkDict['haveIntroductoryText'] = True
-            elif marker == 'tr':
+            if marker == 'tr':
                 bkDict['haveTables'] = True
-            elif marker == 'li1':
+            elif marker == 'li1': # Note that this one is also in the paragraph markers above
                 bkDict['haveLists'] = True
 
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
-- 
2.43.0


From 9776875f14cc6d460892f1f74b29a171bceede2f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 132/187] fix: typical note sets for endnotes

---
 BibleOrgSys/Reference/USFM2Markers.py | 2 +-
 BibleOrgSys/Reference/USFM3Markers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..9d592e3 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -557,7 +557,7 @@ class USFM2Markers:
 
     def getTypicalNoteSets( self, select='All' ):
         """ Returns a container of typical footnote and xref sets. """
-        if select=='fn': return footnoteSets
+        if select in ('fn','en'): return footnoteSets # Endnotes use the same markers as footnotes
         elif select=='xr': return xrefSets
         elif select=='All': return footnoteSets + xrefSets
     # end of USFM2Markers.getTypicalNoteSets
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index aaa7e57..2325c21 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -562,7 +562,7 @@ class USFM3Markers:
 
     def getTypicalNoteSets( self, select='All' ):
         """ Returns a container of typical footnote and xref sets. """
-        if select=='fn': return footnoteSets
+        if select in ('fn','en'): return footnoteSets # Endnotes use the same markers as footnotes
         elif select=='xr': return xrefSets
         elif select=='All': return footnoteSets + xrefSets
     # end of USFM3Markers.getTypicalNoteSets
-- 
2.43.0


From c1fdbf6a1f329880dd27be98260c2174d7455ba9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 133/187] fix: a book whose last verse is empty is not finished

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 71112af..6898c23 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3366,6 +3366,7 @@ class InternalBibleBook:
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
+        if lastMarker == 'v': bkDict['seemsFinished'] = False # The very last verse is empty
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'wordCount', self.BBB, bkDict['wordCount'] )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'uniqueWordCount', self.BBB, bkDict['uniqueWordCount'] )
         bkDict['uniqueWordCount'] = len( bkDict['allWordCounts'] )
-- 
2.43.0


From 5d6afa2bea585d881467a309647c8030c8fbf06c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 134/187] fix: a USFM line starting with a character style, a
 nested style or an endnote continues the previous line

---
 BibleOrgSys/Formats/USFMBibleBook.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c2d92be..c546067 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -43,6 +43,7 @@ if __name__ == '__main__':
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
 from BibleOrgSys.InputOutput.USFMFile import USFMFile
+from BibleOrgSys.Internals.InternalBibleInternals import BOS_EXTRA_MARKERS
 from BibleOrgSys.Bible import Bible, BibleBook
 
 
@@ -555,7 +556,8 @@ class USFMBibleBook( BibleBook ):
                 if gotUWEncoding:
                     marker, text = handleUWEncoding( marker, text, alignmentVariables )
             elif BibleOrgSysGlobals.loadedUSFMMarkers.isInternalMarker( marker ) \
-            or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isInternalMarker( marker[:-1] ): # the line begins with an internal marker -- append it to the previous line
+            or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isInternalMarker( marker[:-1] ) \
+            or marker.startswith('+') and BibleOrgSysGlobals.loadedUSFMMarkers.isInternalMarker( marker[1:-1] if marker.endswith('*') else marker[1:] ): # the line begins with an internal marker -- append it to the previous line
                 if issueLinePositioningErrors \
                 and (not gotUWEncoding or marker!='w'):
                     if text:
@@ -595,8 +597,12 @@ class USFMBibleBook( BibleBook ):
                         #dPrint( 'Never', debuggingThisFunction, 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
                         logging.critical( f"Programming error ¬ZALN: USFMBibleBook.load() lost '{self.workName}' {self.BBB}_{C}:{V} text after {lastMarker}='{lastText}': {marker}='{text}'" )
                         if self.doExtraChecking: halt
+                elif lastMarker:
+                    if not lastText.endswith(' '): lastText += ' ' # The line break counts as a space
+                    lastText +=  '\\' + marker + ('' if marker.endswith('*') else ' ') + text
             elif BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
-            or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ): # the line begins with a note marker -- append it to the previous line
+            or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ) \
+            or marker.rstrip('*') in BOS_EXTRA_MARKERS: # the line begins with a note marker -- append it to the previous line
                 if text:
                     loadErrors.append( _("{} {}:{} Found '\\{}' note marker at beginning of line with text: {!r}").format( self.BBB, C, V, marker, text ) )
                     logging.warning( _("Found '\\{}' note marker after {} {}:{} at beginning of line with text: {!r}").format( marker, self.BBB, C, V, text ) )
@@ -605,7 +611,7 @@ class USFMBibleBook( BibleBook ):
                     logging.warning( _("Found '\\{}' note marker after {} {}:{} at beginning of line (with no text)").format( marker, self.BBB, C, V ) )
                 self.addPriorityError( 26, C, V, _("Found \\{} note marker on new line in file").format( marker ) )
                 if not lastText.endswith(' ') and marker!='f': lastText += ' ' # Not always good to add a space, but it's their fault! Don't do it for footnotes, though.
-                lastText +=  '\\' + marker + ' ' + text
+                lastText +=  '\\' + marker + ('' if marker.endswith('*') else ' ') + text
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"{self.BBB} {C} {V} Appended2 {marker}='{text}' to get combined line {lastMarker}='{lastText}'" )
             else: # the line begins with an unknown marker
                 # if lastMarker:
-- 
2.43.0


From a66262d0f3e0c9fba9745ba09353abe199e7327a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 135/187] fix: unfoldingWord alignments keep only their own
 words, and the first one of a book is not missed

---
 BibleOrgSys/Formats/USFMBibleBook.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c546067..305984b 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -251,13 +251,13 @@ class USFMBibleBook( BibleBook ):
                         assert variables['level'] > 0, f"uW alignment format error in {self.workName} {self.BBB}_{C}:{V} {variables['level']=} {marker}='{text}'"
                         dPrint( 'Never', debuggingThisFunction, f"        findInternalStarts: Found {lookForCount} preceding level {variables['level']} end marker(s) inside line" )
                         assert variables['text']
-                        if marker == 'INLINE': assert not variables['words']
+                        if marker=='INLINE' or variables['start'] is not None: assert not variables['words']
                         text = text.replace( '\\zaln-e\\*' * lookForCount, '', 1 ) # Remove whatever we found above
                         while ixAlignmentEnd<len(text) and text[ixAlignmentEnd] in BibleOrgSysGlobals.TRAILING_WORD_PUNCT_CHARS:
                             #dPrint( 'Quiet', debuggingThisFunction, f"        findInternalStarts: Appended punctuation {text[ixAlignmentEnd]} to '{variables['words']}'" )
                             # variables['words'] += text[ixAlignmentEnd+9] # Append the punctuation
                             ixAlignmentEnd += 1 # Account for the punctuation or space
-                        variables['words'] += text[:ixAlignmentEnd] if marker=='INLINE' \
+                        variables['words'] += text[variables['start']:ixAlignmentEnd] if marker=='INLINE' or variables['start'] is not None \
                                                 else f' \\{marker} {text[:ixAlignmentEnd]}'
                         assert variables['words']
                         #dPrint( 'Quiet', debuggingThisFunction, "words1", variables['words'] )
@@ -283,6 +283,9 @@ class USFMBibleBook( BibleBook ):
                         dPrint( 'Info', debuggingThisFunction, "The above warnings and error messages need fixing!")
                         if debuggingThisFunction or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: halt # Error messages need fixing
                     else: # self-closing was ok
+                        if variables['level'] == 0: # Don't include any preceding words from this line in this alignment (but do include any directly preceding punctuation)
+                            variables['start'] = ixAlignmentStart
+                            while variables['start'] > 0 and text[variables['start']-1] in BibleOrgSysGlobals.LEADING_WORD_PUNCT_CHARS: variables['start'] -= 1
                         variables['level'] += 1
                         if variables['level'] > variables['maxLevel']: variables['maxLevel'] = variables['level']
                         if variables['level'] > MAX_EXPECTED_NESTING_LEVELS:
@@ -306,6 +309,7 @@ class USFMBibleBook( BibleBook ):
 
             # handleUWEncoding function main code
             marker, text = givenMarker, givenText
+            variables['start'] = None # Index into this line of the first translated word of the current alignment (None if it started on an earlier line)
             if marker == 'zaln-s':
                 assert not variables['text']
                 assert text.startswith('|')
@@ -327,14 +331,14 @@ class USFMBibleBook( BibleBook ):
                 if ixEndMarkers > 0: # Found end alignment marker(s)
                     dPrint( 'Never', debuggingThisFunction, f"        handleUWEncoding: Found {variables['level']} end marker(s)" )
                     assert variables['text']
-                    if marker == 'INLINE': assert not variables['words']
+                    if marker=='INLINE' or variables['start'] is not None: assert not variables['words']
                     adjustedText = text.replace( endMarkers, '', 1 ) # Remove whatever we found above
                     punctCount = 0
                     while (ixEndMarkers+punctCount)<len(adjustedText) and adjustedText[ixEndMarkers+punctCount] in BibleOrgSysGlobals.TRAILING_WORD_PUNCT_CHARS:
                         #dPrint( 'Quiet', debuggingThisFunction, f"        findInternalStarts: Appended punctuation {text[ixAlignmentEnd]} to '{variables['words']}'" )
                         # variables['words'] += text[ixAlignmentEnd+9] # Append the punctuation
                         punctCount += 1 # Account for the punctuation or space
-                    variables['words'] += adjustedText[:ixEndMarkers+punctCount] if marker=='INLINE' \
+                    variables['words'] += adjustedText[variables['start']:ixEndMarkers+punctCount] if marker=='INLINE' or variables['start'] is not None \
                                             else f' \\{marker} {adjustedText[:ixEndMarkers+punctCount]}'
                     dPrint( 'Never', debuggingThisFunction, f"{marker}='{text}' GOT1 variables['words']='{variables['words']}'" )
                     assert variables['words']
@@ -353,8 +357,8 @@ class USFMBibleBook( BibleBook ):
                 else: # end marker(s) must be on a following line
                     #dPrint( 'Quiet', debuggingThisFunction, self.wordName, self.BBB, C, V, "words3a", variables['words'] )
                     #dPrint( 'Quiet', debuggingThisFunction, f"{marker}={text}" )
-                    if marker == 'INLINE': assert not variables['words']
-                    variables['words'] += text if marker=='INLINE' else f' \\{marker} {text}'
+                    if marker=='INLINE' or variables['start'] is not None: assert not variables['words']
+                    variables['words'] += text[variables['start']:] if marker=='INLINE' or variables['start'] is not None else f' \\{marker} {text}'
                     #dPrint( 'Quiet', debuggingThisFunction, "words3b", variables['words'] )
                     dPrint( 'Never', debuggingThisFunction, f"{marker}='{text}' GOT2 variables['words']='{variables['words']}'" )
                     assert variables['words']
@@ -394,7 +398,7 @@ class USFMBibleBook( BibleBook ):
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, dir(self.containerBibleObject) )
 
         gotUWEncoding = False
-        alignmentVariables = { 'level':0, 'maxLevel':0, 'text':'', 'words':'', 'saved':[] }
+        alignmentVariables = { 'level':0, 'maxLevel':0, 'text':'', 'words':'', 'start':None, 'saved':[] }
         try:
             if self.containerBibleObject.uWencoded:
                 gotUWEncoding = True
@@ -411,6 +415,10 @@ class USFMBibleBook( BibleBook ):
         if encoding is None: encoding = 'utf-8'
         originalBook.read( self.sourceFilepath, encoding=encoding )
 
+        if not gotUWEncoding and any( marker=='zaln-s' or '\\zaln-s |' in text for marker,text in originalBook.lines ):
+            gotUWEncoding = True # Need to know this before we get to the first alignment marker (which is usually inside a v line)
+            issueLinePositioningErrors = False
+
         # Do some important cleaning up before we save the data
         C, V = '-1', '-1' # So first/id line starts at -1:0
         lastMarker = lastText = None
-- 
2.43.0


From 674031ff37f636196a4bada129340c4ca716e8b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 136/187] fix: no paragraph markers inside the translated words
 of an alignment

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 6898c23..930a435 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -197,6 +197,8 @@ cleanUWalignmentsL 144 TI1 1:11 'x-strong="G35880" x-lemma="ὁ" x-morph="Gr,EA,
                     break
             if not changedSomething: break
         translatedWordsString = translatedWordsString.lstrip()
+        # Also remove any paragraph markers which occur part way through the translated words (e.g., in poetry)
+        translatedWordsString = re.sub( r' *\\(q|q[1-4]|p|m|b|nb|mi|pi|pi[1-4]|li|li[1-4]|qm|qm[1-4]) +', ' ', translatedWordsString )
 
         while '\\v ' in translatedWordsString: # Remove the verse number
             ix = translatedWordsString.find( '\\v ' )
-- 
2.43.0


From 29c5f800c4e678bbc294b876a5b44cd4f7c95ff8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 137/187] fix: proper nouns keep their capital letter in the
 reverse alignment tables

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 71e9e58..30ed09b 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -3185,7 +3185,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         # TODO: Maybe could use an English dictionary here ???
                         # Then maybe this word was only capitalised because it started a sentence???
                         vPrint( 'Verbose', debuggingThisFunction, f"  Investigating '{thistranslatedWord}' from {originalWordsList}…")
-                        combinedMorphString = ' + '.join( (x[2] for x in originalWordsList) )
+                        combinedMorphString = ' + '.join( (x[3] for x in originalWordsList) )
                         vPrint( 'Verbose', debuggingThisFunction, f"    combinedMorphString='{combinedMorphString}'")
                         if not combinedMorphString.endswith(',Np') and not combinedMorphString.endswith(':Np') \
                         and thistranslatedWord not in ('I','God','Lord','Father','Son','Spirit'): # special words which might intentionally occur in both cases
-- 
2.43.0


From edc8951aa1e530198203ca42278273e2aa3e79ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 138/187] fix: aligned words directly after a \ts, \sp, \d or
 \qs line are not lost

---
 BibleOrgSys/Formats/USFMBibleBook.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index 305984b..a1168f3 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -591,16 +591,22 @@ class USFMBibleBook( BibleBook ):
                         lastText += text
                         vPrint( 'Never', DEBUGGING_THIS_MODULE, f"{self.BBB} {C} {V} Appended1b {marker}='{text}' to get combined line {lastMarker}='{lastText}'" )
                         marker = text = None # Seems to make no difference
-                    elif marker == 'w' and lastMarker in ('ts','sp'): # \\ts: A common unfoldingWord USFM encoding error; \\sp in Hindu SNG
+                    elif marker in BibleOrgSysGlobals.USFMCharacterMarkers and lastMarker in ('ts','sp'): # \\ts: A common unfoldingWord USFM encoding error; \\sp in Hindu SNG
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
-                        marker, text = 'p', '\\w {text}'
+                        doaddLine( lastMarker, lastText )
+                        lastMarker = lastText = None
+                        marker, text = 'p', f'\\{marker} {text}'
                     elif marker == 'p~' and lastMarker == 'ts': # A common unfoldingWord USFM encoding error
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
+                        doaddLine( lastMarker, lastText )
+                        lastMarker = lastText = None
                         marker = 'p'
-                    elif marker=='qs*' and not text.strip(): # selah character ending marker on its own line
-                        pass
                     elif marker=='qa' and text: # Hebrew letters in Psalm 119
                         pass
+                    elif marker!='p~' and lastMarker: # e.g., \\qs or \\qs* for a selah on its own line
+                        if not lastText.endswith(' '): lastText += ' '
+                        lastText +=  '\\' + marker + ('' if marker.endswith('*') else ' ') + text
+                        marker = text = None
                     else:
                         #dPrint( 'Never', debuggingThisFunction, 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
                         logging.critical( f"Programming error ¬ZALN: USFMBibleBook.load() lost '{self.workName}' {self.BBB}_{C}:{V} text after {lastMarker}='{lastText}': {marker}='{text}'" )
@@ -629,14 +635,16 @@ class USFMBibleBook( BibleBook ):
                 if marker in ('zaln-s','zaln-e'): # it's a Door43 translation alignment marker (should be self-closed)
                     gotUWEncoding = True
                     marker, text = handleUWEncoding( marker, text, alignmentVariables )
-                    if marker=='p~' and (lastMarker in ('v', 'p~', 'q','pi','qm','li') or lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers):
+                    if marker=='p~' and (lastMarker in ('v', 'p~', 'd', 'q','pi','qm','li') or lastMarker in BibleOrgSysGlobals.USFMParagraphMarkers):
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"HereYY with {lastMarker} now {marker}" )
                         if not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
                         lastText +=  text
                         vPrint( 'Never', DEBUGGING_THIS_MODULE, f"{self.BBB} {C} {V} Appended3 {marker}='{text}' to get combined line {lastMarker}='{lastText}'" )
                         marker = text = None # Seems to make no difference
-                    elif marker == 'p~' and lastMarker in ('ts','sp','d'): # A common unfoldingWord USFM encoding error
+                    elif marker == 'p~' and lastMarker in ('ts','sp'): # A common unfoldingWord USFM encoding error
                         logging.error( f"USFMBibleBook.load() '{self.workName}' {self.BBB}_{C}:{V} added new paragraph for encoding error after {lastMarker}='{lastText}': {marker}='{text}'" )
+                        doaddLine( lastMarker, lastText )
+                        lastMarker = lastText = None
                         marker = 'p'
                     else:
                         # print( 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
-- 
2.43.0


From 5c43abf695b4c86a43172d0855c253eaf7280131 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:30:27 +0000
Subject: [PATCH 139/187] fix: text after a chapter number does not hold the
 chapter number again

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 930a435..b0b7163 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2448,7 +2448,7 @@ class InternalBibleBook:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook._processLine: Something on c line", self.BBB, C, V, repr(text), repr(cBits[1]) )
                         # Note: The extra material (e.g., a footnote on the chapter number) is handled with the c~ field below
                         self._processedLines.append( InternalBibleEntry(adjustedMarker, originalMarker, C, C, None, C) ) # Write the chapter number as a separate line
-                        adjustedMarker, text = 'c~', cBits[1]
+                        adjustedMarker, text = 'c~', cBits[1].lstrip()
             elif originalMarker=='cp' and text:
                 V = '0'
                 # Assertion is not correct in RSV52 ESG -- has cp in between verses
@@ -2678,7 +2678,7 @@ class InternalBibleBook:
             #goodStart =  len(originalText)>1 and originalText[0]==' ' and originalText[1]!=' '
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Gs', goodStart, repr(verseNumberRest[1:] if goodStart else originalText) )
             #__doAppendEntry( adjustedMarker, originalMarker, text, verseNumberRest if originalMarker=='v' and adjustedMarker=='v~' else originalText )
-            __doAppendEntry( adjustedMarker, originalMarker, text, text if originalMarker=='v' and adjustedMarker=='v~' else originalText )
+            __doAppendEntry( adjustedMarker, originalMarker, text, text if adjustedMarker=='c~' or originalMarker=='v' and adjustedMarker=='v~' else originalText )
         # end of InternalBibleBook.processLines._processLine
 
 
-- 
2.43.0


From 56c17eda61c06da055614bf537f468be8d30ec5d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 140/187] fix: the OSIS export keeps the text of all fields of
 notes and of all character styles

---
 BibleOrgSys/BibleWriter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index faacad9..c10c779 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5102,7 +5102,9 @@ class BibleWriter( InternalBible ):
                 for charMarker,openField,closeField in ( ('qt','<seg type="otPassage">','</seg>'), ('pn','<name>','</name>'), ('tl','<foreign>','</foreign>'), ('k','<seg type="keyword">','</seg>'),
                                         ('sls','<foreign type="x-secondaryLanguage">','</foreign>'), ('dc','<transChange type="added" editions="dc">','</transChange>'), ('qs','<hi type="italic">','</hi>'),
                                         ('ord','<hi type="super">','</hi>'), ('sup','<hi type="super">','</hi>'), ('no','<hi type="normal">','</hi>'),
-                                        ('bdit','<hi type="bold"><hi type="italic">','</hi></hi>'), ):
+                                        ('bdit','<hi type="bold"><hi type="italic">','</hi></hi>'), ('png','<name type="geographic">','</name>'), ('rq','<reference>','</reference>'),
+                                        ('w','<seg>','</seg>'), ('wa','<seg>','</seg>'), ('wg','<seg>','</seg>'), ('wh','<seg>','</seg>'), ('ndx','<seg>','</seg>'),
+                                        ('lik','<seg>','</seg>'), ('litl','<seg>','</seg>'), ('liv','<seg>','</seg>'), ('liv1','<seg>','</seg>'), ('liv2','<seg>','</seg>'), ):
                     if f'\\{charMarker} ' in adjText: adjText = checkOSISTextHelper(charMarker,adjText).replace(f'\\{charMarker} ',openField).replace(f'\\{charMarker}*',closeField)
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the OSIS (for now at least)
                     ix1 = adjText.find( '\\fig ' )
@@ -5176,14 +5178,16 @@ class BibleWriter( InternalBible ):
                                 OSISxref += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,token[3:])
                                 if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
                                     logger.error( _("toOSIS: Cross-reference at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
+                            else: OSISxref += token[3:] # Can't make a reference from it, but don't lose the text
                         elif lcToken.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
                             osisRef = BRL.parseToOSIS( xrefText, toOSISGlobals['verseRef'] )
                             if osisRef is not None:
                                 OSISxref += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,xrefText+finalPunct)
+                            else: OSISxref += xrefText+finalPunct # Can't make a reference from it, but don't lose the text
                         elif lcToken.startswith('x '): # another whole xref entry follows
                             rest = token[2:].strip()
                             if rest != '+':
@@ -5192,6 +5196,7 @@ class BibleWriter( InternalBible ):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.critical( _("toOSIS: Unprocessed {!r} token in {} xref {!r}").format( token, toOSISGlobals['verseRef'], USFMxref ) )
+                            OSISxref += re.sub( r'^[^ *]*[ *]?', '', token ) # Drop the marker, but don't lose the text
                     OSISxref += '</note>'
                     return OSISxref
                 # end of toOSISXML.processXRef
@@ -5222,6 +5227,7 @@ class BibleWriter( InternalBible ):
                                 OSISfootnote += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,token[3:])
                                 if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
                                     logger.error( _("toOSIS: Footnote at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
+                            else: OSISfootnote += token[3:] # Can't make a reference from it, but don't lose the text
                         elif lcToken.startswith('ft ') or lcToken.startswith('fr* '): # footnote text follows
                             OSISfootnote += token[3:]
                         elif lcToken.startswith('fq ') or token.startswith('fqa ') or lcToken.startswith('fk '): # footnote quote follows — NOTE: We also assume here that the next marker closes the fq field
@@ -5230,6 +5236,7 @@ class BibleWriter( InternalBible ):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.critical( _("toOSIS: Unprocessed {!r} token in {} footnote {!r}").format(token, toOSISGlobals['verseRef'], USFMfootnote) )
+                            OSISfootnote += re.sub( r'^[^ *]*[ *]?', '', token ) # Drop the marker, but don't lose the text
                     OSISfootnote += '</note>'
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '', OSISfootnote )
                     #if currentChapterNumberString=='5' and verseNumberString=='29': halt
-- 
2.43.0


From 469e7d71541c3b8746b8935c14b023f1a1fc0a97 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 141/187] fix: an introduction that begins with a list is in
 the introduction of the OSIS export

---
 BibleOrgSys/BibleWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c10c779..e647319 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5581,6 +5581,9 @@ class BibleWriter( InternalBible ):
                     writerObject.writeLineOpenText( 'p', checkOSISText(adjustedText), noTextCheck=True ) # Sometimes there's text
                     haveOpenParagraph = True
                 elif marker in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
+                    if marker.startswith( 'i' ) and not haveOpenIntro: # A list may well be the first thing in the introduction
+                        writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
+                        haveOpenIntro = True
                     if not haveOpenList:
                         writerObject.writeLineOpen( 'list' )
                         haveOpenList = True
-- 
2.43.0


From 89dd8158b81f5737f8fd0db202741e82bfb94d5a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 142/187] fix: the USFX export keeps the text of all fields of
 notes

---
 BibleOrgSys/BibleWriter.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index e647319..15306c5 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4534,21 +4534,23 @@ class BibleWriter( InternalBible ):
                             xoOpen = True
                         elif lcToken.startswith('xo*'):
                             if self.doExtraChecking: assert xoOpen and not xtOpen
-                            USFXxrefXML += '>' + adjToken + '</char>'
+                            if xoOpen: USFXxrefXML += '>' + adjToken + '</char>'
+                            USFXxrefXML += token[3:]
                             xoOpen = False
-                        elif lcToken.startswith('xt '): # xref text follows
+                        elif lcToken.startswith( ('xt ','xk ','xq ','xta ','xop ','xot ','xnt ','xdc ','rq ') ): # xref text (or keyword, etc.) follows
                             if xtOpen: # Multiple xt's in a row
                                 if self.doExtraChecking: assert not xoOpen
                                 USFXxrefXML += ' closed="false">' + adjToken + '</char>'
                             if xoOpen:
                                 USFXxrefXML += ' closed="false">' + adjToken + '</char>'
                                 xoOpen = False
-                            adjToken = token[3:]
-                            USFXxrefXML += '<char style="xt"'
+                            xMarker, adjToken = token.split( ' ', 1 )
+                            USFXxrefXML += '<char style="{}"'.format( xMarker )
                             xtOpen = True
-                        elif lcToken.startswith('xt*'):
+                        elif lcToken.startswith( ('xt*','xk*','xq*','xta*','xop*','xot*','xnt*','xdc*','rq*') ):
                             if self.doExtraChecking: assert xtOpen and not xoOpen
-                            USFXxrefXML += '>' + adjToken + '</char>'
+                            if xtOpen: USFXxrefXML += '>' + adjToken + '</char>'
+                            USFXxrefXML += token[token.index('*')+1:]
                             xtOpen = False
                         #elif lcToken in ('xo*','xt*','x*',):
                         #    pass # We're being lazy here and not checking closing markers properly
@@ -4593,11 +4595,12 @@ class BibleWriter( InternalBible ):
                             adjToken = token[3:]
                             USFXfootnoteXML += '<char style="fr"'
                             frOpen = True
-                        elif lcToken.startswith('fr* '):
+                        elif lcToken.startswith('fr*'):
                             if self.doExtraChecking: assert frOpen and not fTextOpen and not fCharOpen
-                            USFXfootnoteXML += '>' + adjToken + '</char>'
+                            if frOpen: USFXfootnoteXML += '>' + adjToken + '</char>'
+                            USFXfootnoteXML += token[3:]
                             frOpen = False
-                        elif lcToken.startswith('ft ') or lcToken.startswith('fq ') or lcToken.startswith('fqa ') or lcToken.startswith('fv ') or lcToken.startswith('fk '):
+                        elif lcToken.startswith( ('ft ','fq ','fqa ','fv ','fk ','fl ','fp ','fw ','fdc ') ):
                             if fCharOpen:
                                 if self.doExtraChecking: assert not frOpen
                                 USFXfootnoteXML += '>' + adjToken + '</char>'
@@ -4614,13 +4617,15 @@ class BibleWriter( InternalBible ):
                             adjToken = token[len(fMarker)+1:] # Get the bit after the space
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{!r} {!r}".format( fMarker, adjToken ) )
                             fTextOpen = True
-                        elif lcToken.startswith('ft*') or lcToken.startswith('fq*') or lcToken.startswith('fqa*') or lcToken.startswith('fv*') or lcToken.startswith('fk*'):
+                        elif lcToken.startswith( ('ft*','fq*','fqa*','fv*','fk*','fl*','fp*','fw*','fdc*') ):
                             #if self.doExtraChecking: assert fTextOpen and not frOpen and not fCharOpen
                             if frOpen or fCharOpen or not fTextOpen:
                                 logger.error( "toUSFXXML.processFootnote: Problem at {} {}:{} in footnote {!r}".format( BBB, C, V, USFXfootnote ) )
-                            USFXfootnoteXML += '>' + adjToken + '</char>'
+                            if fTextOpen: USFXfootnoteXML += '>' + adjToken + '</char>'
+                            USFXfootnoteXML += token[token.index('*')+1:] # Don't lose text after the closing marker
                             fTextOpen = False
                         else: # Could be character formatting (or closing of character formatting)
+                            if token.startswith('+'): token = token[1:]; lcToken = lcToken[1:] # Nested character marker
                             subTokens = lcToken.split()
                             firstToken = subTokens[0]
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ft", firstToken )
@@ -4633,6 +4638,9 @@ class BibleWriter( InternalBible ):
                                     if self.doExtraChecking: assert not fCharOpen
                                     USFXfootnoteXML += ' closed="false">' + adjToken + '</char>'
                                     frOpen = False
+                                if fTextOpen:
+                                    USFXfootnoteXML += ' closed="false">' + adjToken + '</char>'
+                                    fTextOpen = False
                                 USFXfootnoteXML += '<char style="{}"'.format( firstToken )
                                 adjToken = token[len(firstToken)+1:] # Get the bit after the space
                                 fCharOpen = firstToken
@@ -4644,17 +4652,19 @@ class BibleWriter( InternalBible ):
                                             logger.warning( _("toUSFXXML: {!r} closing tag doesn't match {!r} in {} {}:{} footnote {!r}").format( firstToken, fCharOpen, BBB, C, V, USFXfootnote ) )
                                         USFXfootnoteXML += '>' + adjToken + '</char>'
                                         fCharOpen = False
+                                    USFXfootnoteXML += token[len(firstToken):]
                                     logger.warning( _("toUSFXXML: {!r} closing tag doesn't match in {} {}:{} footnote {!r}").format( firstToken, BBB, C, V, USFXfootnote ) )
                                 else:
                                     ixAS = firstToken.find( '*' )
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, firstToken, ixAS, firstToken[:ixAS] if ixAS!=-1 else '' )
-                                    if ixAS!=-1 and ixAS<4 and firstToken[:ixAS] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # it's a closing tag
+                                    if ixAS!=-1 and firstToken[:ixAS] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # it's a closing tag
                                         if fCharOpen:
                                             if self.doExtraChecking: assert not frOpen
                                             if not firstToken.startswith( fCharOpen+'*' ): # It's not a matching tag
                                                 logger.warning( _("toUSFXXML: {!r} closing tag doesn't match {!r} in {} {}:{} footnote {!r}").format( firstToken, fCharOpen, BBB, C, V, USFXfootnote ) )
                                             USFXfootnoteXML += '>' + adjToken + '</char>'
                                             fCharOpen = False
+                                        USFXfootnoteXML += token[ixAS+1:]
                                         logger.warning( _("toUSFXXML: {!r} closing tag doesn't match in {} {}:{} footnote {!r}").format( firstToken, BBB, C, V, USFXfootnote ) )
                                     else:
                                         logger.critical( _("toUSFXXML: Unprocessed {!r} token in {} {}:{} footnote {!r}").format( firstToken, BBB, C, V, USFXfootnote ) )
@@ -4665,7 +4675,9 @@ class BibleWriter( InternalBible ):
                         logger.warning( _("toUSFXXML: Unclosed 'fr' token in {} {}:{} footnote {!r}").format( BBB, C, V, USFXfootnote) )
                         if self.doExtraChecking: assert not fCharOpen and not fTextOpen
                         USFXfootnoteXML += ' closed="false">' + adjToken + '</char>'
-                    if fCharOpen: logger.warning( _("toUSFXXML: Unclosed {!r} token in {} {}:{} footnote {!r}").format( fCharOpen, BBB, C, V, USFXfootnote) )
+                    if fCharOpen:
+                        logger.warning( _("toUSFXXML: Unclosed {!r} token in {} {}:{} footnote {!r}").format( fCharOpen, BBB, C, V, USFXfootnote) )
+                        USFXfootnoteXML += ' closed="false">' + adjToken + '</char>'
                     if fTextOpen: USFXfootnoteXML += ' closed="false">' + adjToken + '</char>'
                     USFXfootnoteXML += '</f>'
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '', USFXfootnote, USFXfootnoteXML )
-- 
2.43.0


From 6d1df3b007e8128ef9113afea03716df8b15e5d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 143/187] fix: the Zefania export keeps the text of all fields
 of notes and of all character styles

---
 BibleOrgSys/BibleWriter.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 15306c5..738e8fa 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5884,7 +5884,9 @@ class BibleWriter( InternalBible ):
                 if '\\em ' in adjText: adjText = checkZefaniaTextHelper('em',adjText).replace('\\em ','<STYLE fs="bold">').replace('\\em*','</STYLE>') # ???
                 if '\\sc ' in adjText: adjText = checkZefaniaTextHelper('sc',adjText).replace('\\sc ','<STYLE fs="small-caps">').replace('\\sc*','</STYLE>')
                 for charMarker,style in ( ('bk','italic'), ('qt','italic'), ('tl','italic'), ('sls','italic'), ('dc','italic'), ('qs','italic'), ('k','bold'), ('bdit','bold'),
-                                        ('ord','super'), ('sup','super'), ('pn','normal'), ('no','normal'), ):
+                                        ('ord','super'), ('sup','super'), ('pn','normal'), ('no','normal'), ('png','normal'), ('rq','italic'),
+                                        ('w','normal'), ('wa','normal'), ('wg','normal'), ('wh','normal'), ('ndx','normal'),
+                                        ('lik','normal'), ('litl','normal'), ('liv','normal'), ('liv1','normal'), ('liv2','normal'), ):
                     if f'\\{charMarker} ' in adjText: adjText = checkZefaniaTextHelper(charMarker,adjText).replace(f'\\{charMarker} ',f'<STYLE fs="{style}">').replace(f'\\{charMarker}*','</STYLE>')
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the Zefania (for now at least)
                     ix1 = adjText.find( '\\fig ' )
@@ -5968,19 +5970,19 @@ class BibleWriter( InternalBible ):
                             osisRef = BRL.parseToOSIS( adjToken, toZefGlobals['verseRef'] )
                             if osisRef is not None:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  osisRef = {}".format( osisRef ) )
-                                if not ZefXref: ZefXref = '<XREF '
-                                ZefXref += 'vref="{}">'.format( V )
+                                if not ZefXref: ZefXref = '<XREF vref="{}">'.format( V )
+                                else: ZefXref += token[3:] # Another anchor inside the same cross-reference
 # Temp disabled
 #                                if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
 #                                    logger.error( _("toZefania: Cross-reference at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
                         elif lcToken.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
                             #osisRef = BRL.parseToOSIS( xrefText, toZefGlobals['verseRef'] )
                             if not ZefXref: ZefXref = '<XREF>'
-                            ZefXref += xrefText
+                            ZefXref += xrefText+finalPunct
                         elif lcToken.startswith('x '): # another whole xref entry follows
                             rest = token[2:].strip()
                             if rest != '+':
@@ -5989,6 +5991,9 @@ class BibleWriter( InternalBible ):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.critical( _("toZefania: Unprocessed {!r} token in {} xref {!r}").format( token, toZefGlobals['verseRef'], USFMxref ) )
+                            if not ZefXref: ZefXref = '<XREF>'
+                            ZefXref += re.sub( r'^[^ *]*[ *]?', '', token ) # Drop the marker, but don't lose the text
+                    if not ZefXref: ZefXref = '<XREF>'
                     ZefXref += '</XREF>'
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, ' ZefXref gave {!r} from {!r}'.format( ZefXref, USFMxref ) )
                     if self.doExtraChecking:
@@ -6024,9 +6029,9 @@ class BibleWriter( InternalBible ):
                                 if not ZefFootnote: ZefFootnote = '<NOTE>'
                                 ZefFootnote += adjToken
                             else:
-                                if not ZefFootnote: ZefFootnote = '<NOTE '
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(osisRef), repr(token[3:]) )
-                                ZefFootnote += 'ref="{}">'.format( osisRef.replace('.',',') )
+                                if not ZefFootnote: ZefFootnote = '<NOTE ref="{}">'.format( osisRef.replace('.',',') )
+                                else: ZefFootnote += token[3:] # Another anchor inside the same footnote
 # Temp disabled
 #                                if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
 #                                    logger.error( _("toZefania: Footnote at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
@@ -6043,7 +6048,9 @@ class BibleWriter( InternalBible ):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.error( _("toZefania: Unprocessed {!r} token in {} footnote {!r}").format(token, toZefGlobals['verseRef'], USFMfootnote) )
-                            ZefFootnote += token # put it in (including the markers)
+                            if not ZefFootnote: ZefFootnote = '<NOTE>'
+                            ZefFootnote += re.sub( r'^[^ *]*[ *]?', '', token ) # Drop the marker, but don't lose the text
+                    if not ZefFootnote: ZefFootnote = '<NOTE>'
                     ZefFootnote += '</NOTE>'
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, ' ZefFootnote', repr(ZefFootnote) )
                     #if currentChapterNumberString=='5' and verseNumberString=='29': halt
-- 
2.43.0


From 8ef1f9d0f56f7ef3dadde3d9a2d174f9856f986c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 144/187] fix: theWord and MySword exports handle
 cross-references with any fields

---
 BibleOrgSys/Formats/theWordBible.py | 33 +++++++++++++----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index ea41e5c..5589ffd 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -414,22 +414,18 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
     if '\\x' in line: # Remove cross-references completely (why???)
         # #line = line.replace('\\x ','<RX>').replace('\\x*','<Rx>')
         # line = removeUSFMCharacterField( 'x', line, closedFlag=True ).lstrip() # Remove superfluous spaces
-        for marker in ( 'xo', ): # simply remove these whole fields if they exist
-            line = removeUSFMCharacterField( marker, line, closedFlag=None )
-        for safetyCount in range(1,10):
-            if '\\x' not in line: break # all done
-            ixStart = line.index( '\\x ')
-            assert ixStart != -1
-            ixXT = line.index( '\\xt ', ixStart+3)
-            assert ixXT != -1
-            ixEnd = line.index( '\\x*', ixXT+4)
-            assert ixEnd != -1
-            xrList = line[ixXT+4:ixEnd].strip().split(';')
-            newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
-        else:
-            logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
-            line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
+        def adjustCrossReference( match ) -> str:
+            # The references become RX fields and any other text (keywords, quotes, additions, etc.) goes into a note
+            result = ''
+            for field in re.split( r'\\(?!\+)', match.group(1) )[1:]: # The first one is only the caller
+                marker, separator, fieldText = re.match( r'([^ *]*)([ *]?)(.*)', field ).groups()
+                if separator!='*' and marker == 'xo': continue # simply remove these whole fields if they exist
+                if separator!='*' and marker in ('xt','xot','xnt','xdc'):
+                    result += ''.join( f'<RX {entry.strip()}>' for entry in fieldText.split( ';' ) if entry.strip() )
+                elif any( char.isalnum() for char in fieldText ): result += f'<RF>{fieldText.strip()}<Rf>'
+            return result
+        # end of adjustCrossReference
+        line = re.sub( r'\\x (.*?)\\x\*', adjustCrossReference, line )
 
     if '\\f' in line: # Handle footnotes
         line = line.replace( '\\fe ', '\\f ' ).replace( '\\fe*', '\\f*' ) # Handle endnotes like footnotes
@@ -448,7 +444,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
                     line = line.replace( '\\'+marker+' ', '<i>' ).replace( '\\'+marker+'*', '</i>' )
                 else: # leave the next marker in place
                     line = line[:ixEnd].replace( '\\'+marker+' ', '<i>' ) + '</i>' + line[ixEnd:]
-        for marker in ( 'ft', ): # simply remove these markers (but leave behind the text field)
+        for marker in ( 'ft', 'fv', 'fdc', 'fp', 'fw', 'xt', ): # simply remove these markers (but leave behind the text field)
             line = line.replace( '\\'+marker+' ', '' ).replace( '\\'+marker+'*', '' )
         #for caller in '+*abcdefghijklmnopqrstuvwxyz': line.replace('\\f '+caller+' ','<RF>') # Handle single-character callers
         line = re.sub( r'(\\f [a-z+*]{1,3} )', '<RF>', line ) # Handle one to three character callers
@@ -473,7 +469,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
             ( ('nd','sc',), '<font size=-1>','</font>' ),
             ( ('sup',), '<sup>','</sup>' ),
-            ( ('pn','ord','no',), '','' ),
+            ( ('pn','png','ord','no','wa','wg','wh','ndx','lik','litl','liv','liv1','liv2',), '','' ),
             )
         line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
         if '\\nd' not in originalLine and '\\+nd' not in originalLine:
@@ -1157,6 +1153,7 @@ def theWordComposeVerseLine( BBB:str, C:str, V:str, verseData, ourGlobals ):
             logging.warning( "theWordComposeVerseLine: doesn't handle {!r} yet".format( marker ) )
             vPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"theWordComposeVerseLine: doesn't handle '{marker}' yet" )
             ourGlobals['unhandledMarkers'].add( marker )
+            if composedLine: composedLine += ' ' # Don't join the words on either side
         lastMarker = marker
 
     # Final clean-up
-- 
2.43.0


From 08ec1ce8b63718af8c3339ea79ac68914a81be35 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 145/187] fix: MyBible and e-Sword exports handle the remaining
 character styles

---
 BibleOrgSys/Formats/ESwordBible.py  | 2 +-
 BibleOrgSys/Formats/MyBibleBible.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 2658b4d..412a5c8 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1229,7 +1229,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
                 ( ('nd','sc',), '<font size=-1>','</font>' ),
                 ( ('sup',), '<sup>','</sup>' ),
-                ( ('w','pn','ord','no',), '','' ),
+                ( ('w','wa','wg','wh','pn','png','ord','no','ndx','lik','litl','liv','liv1','liv2',), '','' ),
                 )
             line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
             if '\\nd' not in originalLine and '\\+nd' not in originalLine:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 9422a21..189eac2 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -867,7 +867,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
                 ( ('sup',), '<sup>','</sup>' ),
-                ( ('nd','sc','w','pn','ord','no',), '','' ),
+                ( ('nd','sc','w','wa','wg','wh','pn','png','ord','no','ndx','lik','litl','liv','liv1','liv2',), '','' ),
                 #( ('f',), '<n>','</n>' ),
                 ( ('str',), '<S>','</S>' ),
                 )
-- 
2.43.0


From 314bbb1df1adad8bed6e78a29596668a0ff75353 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 146/187] fix: the TeX export leaves out Strong's numbers

---
 BibleOrgSys/BibleWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 738e8fa..8514278 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9632,6 +9632,7 @@ class BibleWriter( InternalBible ):
             nonlocal unhandledMarkers
 
             text = re.sub( r'(\\\+?w [^\\|]*)\|[^\\]*', r'\1', givenText ) # Remove any attributes from wordlist entries
+            text = re.sub( r'\\str .*?\\str\*', '', text ) # Remove Strong's numbers
 
             for char in '&%$#_{}': # Special characters to TeX
                 text = text.replace( char, '~^~' + char )
-- 
2.43.0


From 02fab805d2a75e0bef44a8acdc0dc0d6eca6839f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 147/187] fix: loading by several processes failed when a book
 file is empty

---
 BibleOrgSys/Formats/ESFMBible.py  | 3 +++
 BibleOrgSys/Formats/PTX7Bible.py  | 4 ++++
 BibleOrgSys/Formats/PTX8Bible.py  | 5 ++++-
 BibleOrgSys/Formats/USFM2Bible.py | 4 ++++
 BibleOrgSys/Formats/USFMBible.py  | 4 ++++
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..e795286 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -523,6 +523,9 @@ class ESFMBible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  ESFMBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         EBB = ESFMBibleBook( self, BBB )
         EBB.load( self.possibleFilenameDict[BBB], self.sourceFolder )
+        if not EBB._rawLines:
+            logging.info( "ESFM book {} was completely blank".format( BBB ) )
+            return None
         EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading ESFM book {}.").format( BBB ) )
         return EBB
diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index 5ddf4f8..2fdeabe 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -1743,6 +1743,9 @@ class PTX7Bible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -1770,6 +1773,7 @@ class PTX7Bible( Bible ):
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
+                        if bBook is None: continue # The book was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index aed8913..9fb6d35 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2838,7 +2838,9 @@ class PTX8Bible( Bible ):
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
         if UBB._rawLines:
             UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
-        else: logging.info( "PTX8 USFM book {} was completely blank".format( BBB ) )
+        else:
+            logging.info( "PTX8 USFM book {} was completely blank".format( BBB ) )
+            return None
         self.bookNeedsReloading[BBB] = False
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -2865,6 +2867,7 @@ class PTX8Bible( Bible ):
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
+                        if bBook is None: continue # The book was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                         try: self.filepathsNotYetLoaded.remove( bBook.sourceFilepath ) # Can't do this in _loadBookMP() because it's not atomic
diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 8759e54..c02f10c 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -654,6 +654,9 @@ class USFM2Bible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM2 book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM2 book {}.").format( BBB ) )
         return UBB
@@ -681,6 +684,7 @@ class USFM2Bible( Bible ):
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
+                        if bBook is None: continue # The book was completely blank
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 252d910..f9e6e1b 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -636,6 +636,9 @@ class USFMBible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFMBibleBook( self, BBB ) # Ensure that we point back to the original instance
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -665,6 +668,7 @@ class USFMBible( Bible ):
                     results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                     assert len(results) == len(self.maximumPossibleFilenameTuples)
                     for bBook in results:
+                        if bBook is None: continue # The book was completely blank
                         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
-- 
2.43.0


From 45ff1917e32c356cb144c3a7ddd5528d0c52221f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 148/187] fix: books of a pickled Bible loaded by one process
 were not registered

---
 BibleOrgSys/Formats/PickledBible.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 9021add..a774baf 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -692,7 +692,9 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
-        self.books[BBB] = self._loadBookEssentials( BBB )
+        bookObject = self._loadBookEssentials( BBB )
+        bookObject.containerBibleObject = self # Because this isn't saved in the pickle file
+        self.stashBook( bookObject )
     # end of PickledBible.loadBook
 
 
-- 
2.43.0


From b23fcb83ee5779c4efb237ebe0f8ba1eb47ca397 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 149/187] fix: information of the OSIS headers was lost in a
 load by several processes

---
 BibleOrgSys/Formats/OSISXMLBible.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index b7e3cd4..14558b6 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -380,6 +380,13 @@ class OSISXMLBible( Bible ):
                     results = pool.map( self._loadBookFileMP, self.possibleFilenames ) # have the pool do our loads
                     assert len(results) == len(self.possibleFilenames)
                     for bBook,bookLoadErrors in results:
+                        workerBible = bBook.containerBibleObject # This copy of our Bible got the information from the file header
+                        for attributeName in ('name','abbreviation','title'): # The first one counts
+                            if not getattr( self, attributeName ): setattr( self, attributeName, getattr( workerBible, attributeName ) )
+                        for attributeName in ('schemaLocation','osisIDWork','osisRefWork','lang','header','frontMatter','divs','divTypesString','haveEIDs','XMLTree'):
+                            if attributeName in workerBible.__dict__: setattr( self, attributeName, getattr( workerBible, attributeName ) )
+                        self.suppliedMetadata['OSIS'].update( workerBible.suppliedMetadata['OSIS'] )
+                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                         loadErrors += bookLoadErrors
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From fb59a3a96472c1f6b51616c202d5ac1f19a33df9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 150/187] fix: an aligned Bible loaded by several processes was
 not marked as aligned

---
 BibleOrgSys/Formats/USFMBible.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index f9e6e1b..4b1d587 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -670,6 +670,8 @@ class USFMBible( Bible ):
                     for bBook in results:
                         if bBook is None: continue # The book was completely blank
                         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
+                        if getattr( bBook.containerBibleObject, 'uWencoded', False ): # Set by the worker when it finds alignments
+                            self.uWencoded = True
                         bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( bBook ) # Saves them in the correct order
                 BibleOrgSysGlobals.alreadyMultiprocessing = False
-- 
2.43.0


From cd0d2a4e503d90e5bcc09f57049c8db6c45ac14d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 151/187] fix: OSIS highlight types without USFM marker made
 the loader fail

---
 BibleOrgSys/Formats/OSISXMLBible.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 14558b6..8c4175a 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -826,10 +826,12 @@ class OSISXMLBible( Bible ):
         elif highlightType == 'small-caps': marker = 'sc'
         elif highlightType == 'super': marker = 'ord'
         elif highlightType == 'normal': marker = 'no'
-        elif BibleOrgSysGlobals.debugFlag:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'validateHighlight: highlightX', highlightType, locationDescription, verseMilestone )
-            if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag or DEBUGGING_THIS_MODULE: halt
-        thisBook.appendToLastLine( '\\{} {}\\{}*'.format( marker, clean(highlightedText), marker ) )
+        else: # We don't have a marker for the others, e.g., underline, illuminated, acrostic, line-through, sub
+            marker = None
+            logging.warning( "7kj4 Unhandled {!r} highlight type in {} at {}".format( highlightType, location, verseMilestone ) )
+            loadErrors.append( "Unhandled {!r} highlight type in {} at {} (7kj4)".format( highlightType, location, verseMilestone ) )
+        if marker: thisBook.appendToLastLine( '\\{} {}\\{}*'.format( marker, clean(highlightedText), marker ) )
+        elif highlightedText: thisBook.appendToLastLine( clean(highlightedText) )
         for subelement in element:
             if subelement.tag == OSISXMLBible.OSISNameSpace+'hi':
                 sublocation = "hi of " + locationDescription
-- 
2.43.0


From 87289a1c787c9793b20bb211649d7d698f406053 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 152/187] fix: a folder of OSIS book files with 1John could not
 be loaded

---
 BibleOrgSys/Formats/OSISXMLBible.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 8c4175a..9469eb7 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -309,16 +309,12 @@ class OSISXMLBible( Bible ):
                         self.possibleFilenames.append( filename )
                         foundBBB = None
                         upperFilename = filename.upper()
-                        for osisBkCode in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes():
-                            # osisBkCodes are all UPPERCASE
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'obc', osisBkCode, upperFilename )
-                            if osisBkCode in upperFilename:
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "OSISXMLBible.__init__ found {!r} in {!r}".format( osisBkCode, upperFilename ) )
-                                if 'JONAH' in upperFilename and osisBkCode=='NAH': continue # Handle bad choice
-                                if 'ZEPH' in upperFilename and osisBkCode=='EPH': continue # Handle bad choice
-                                assert not foundBBB # Don't expect duplicates
-                                foundBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( osisBkCode, strict=True )
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  FoundBBB1 = {!r}".format( foundBBB ) )
+                        # Note: osisBkCodes are all UPPERCASE
+                        # One code can contain another one, e.g., JONAH/NAH, ZEPH/EPH, 1JOHN/JOHN, so we want the longest one
+                        osisBkCode = max( (bkCode for bkCode in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes() if bkCode in upperFilename),
+                                                                                                                    key=len, default=None )
+                        if osisBkCode:
+                            foundBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( osisBkCode, strict=True )
                         if not foundBBB: # Could try a USFM/Paratext book code -- what writer creates these???
                             for bkCode in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllUSFMBooksCodes( toUpper=True ):
                                 # returned bkCodes are all UPPERCASE
-- 
2.43.0


From 38c87c5d84bb8b450065cc49474b9d7992c11f29 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 153/187] fix: appending an empty text to a line raised
 IndexError

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b0b7163..c8b9018 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -553,7 +553,7 @@ class InternalBibleBook:
 
         marker, text = self._rawLines[-1] # Get the current existing line
         insertSpace = False
-        if text and text[-1] not in ' *“‘(⌊—/' \
+        if text and additionalText and text[-1] not in ' *“‘(⌊—/' \
         and additionalText[0] not in ' .,?!;:”’ )⌋/\\':
             if marker=='v' and text and text.isdigit(): # Must be a verse number
                 # TODO: Should we ALWAYS be inserting that space??? Probably better to fix at source
-- 
2.43.0


From 9d0b9b0f361e136d2d5650b6ebbd30a677782c46 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:13:19 +0000
Subject: [PATCH 154/187] fix: doAllExports reports its results when the
 parallel exports time out

---
 BibleOrgSys/BibleWriter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8514278..7f1bca1 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -10084,9 +10084,8 @@ class BibleWriter( InternalBible ):
                 result = timeoutSeconds # Will count as True yet be different
                 results = [result if wantPhotoBible else None, # Just have to assume everything worked
                                     #result if wantODFs else None,
-                                    result if wantPDFs else None,
-                                    result, result, result, result, result, result, result, result, result, result, result, result,
-                                    result, result, result, result, result, result, result, result, result, result, result, ]
+                                    result if wantPDFs else None]
+                results += [result] * (len(self.__outputFolders) - len(results))
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results2 are", results )
             BibleOrgSysGlobals.alreadyMultiprocessing = False
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: Multiprocessing got {} results".format( len(results) ) )
-- 
2.43.0


From 89dbafd7ab61440de945aacdc164f748bf9731ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 155/187] fix: USX export survives references to whole chapters
 and to unknown book names

---
 BibleOrgSys/Formats/USXXMLBible.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index f574959..7fa3915 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -382,6 +382,11 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
             'Diy 31:6-7,23.'
     """
     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, f'makeRefs( {text} )…' )
+    def getUSFMBookCode( refBBB:str|None ) -> str|None:
+        """ Returns None if we don't know the book (e.g., an abbreviation from another language). """
+        USFMAbbreviation = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( refBBB ) if refBBB else None
+        return USFMAbbreviation.upper() if USFMAbbreviation else None
+
     currentBBB = BBB
     bitResults = []
     for bit in text.split( ';' ):
@@ -390,7 +395,7 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
         if match:  # e.g., Jos 3:4-4:5
             #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchA '{match.group(1)}' '{match.group(2)}' '{match.group(3)}' '{match.group(4)}'")
             currentBBB = BRL.getBBBFromText( match.group(2) )
-            USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+            USFMBookCode = getUSFMBookCode( currentBBB )
             if USFMBookCode:
                 bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(3).replace("–","-")}">{match.group(2)} {match.group(3)}</ref>{match.group(4)}'
         else:
@@ -398,7 +403,7 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
             if match: # e.g., Jos 3:4-7,12
                 #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchB '{match.group(1)}' '{match.group(2)}' '{match.group(3)}' '{match.group(4)}' '{match.group(5)}' '{match.group(6)}' '{match.group(7)}' '{match.group(8)}' '{match.group(9)}'")
                 currentBBB = BRL.getBBBFromText( match.group(2) )
-                USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                USFMBookCode = getUSFMBookCode( currentBBB )
                 if USFMBookCode:
                     bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(3)}:{match.group(4)}{match.group(5).replace("–","-")}{match.group(6)}">{match.group(2)} {match.group(3)}:{match.group(4)}{match.group(5)}{match.group(6)}</ref>{match.group(7)}<ref loc="{USFMBookCode} {match.group(3)}:{match.group(8)}">{match.group(8)}</ref>{match.group(9)}'
             else:
@@ -406,7 +411,7 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
                 if match: # e.g., Jos 3:4-7
                     #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchC '{match.group(1)}' '{match.group(2)}' '{match.group(3)}' '{match.group(4)}'")
                     currentBBB = BRL.getBBBFromText( match.group(2) )
-                    USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                    USFMBookCode = getUSFMBookCode( currentBBB )
                     if USFMBookCode:
                         bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(3).replace("–","-")}">{match.group(2)} {match.group(3)}</ref>{match.group(4)}'
                 else:
@@ -414,7 +419,7 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
                     if match: # e.g., Jos 3:4,9
                         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchD '{match.group(1)}' '{match.group(2)}' '{match.group(3)}':'{match.group(4)}' '{match.group(5)}' '{match.group(6)}' '{match.group(7)}'")
                         currentBBB = BRL.getBBBFromText( match.group(2) )
-                        USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                        USFMBookCode = getUSFMBookCode( currentBBB )
                         if USFMBookCode:
                             bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(3)}:{match.group(4)}">{match.group(2)} {match.group(3)}:{match.group(4)}</ref>{match.group(5)}<ref loc="{USFMBookCode} {match.group(3)}:{match.group(6)}">{match.group(6)}</ref>{match.group(7)}'
                     else:
@@ -422,45 +427,44 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
                         if match: # e.g., Jos 3:4
                             #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchE '{match.group(1)}' '{match.group(2)}' '{match.group(3)}' '{match.group(4)}'")
                             currentBBB = BRL.getBBBFromText( match.group(2) )
-                            USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                            USFMBookCode = getUSFMBookCode( currentBBB )
                             if USFMBookCode:
                                 bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(3)}">{match.group(2)} {match.group(3)}</ref>{match.group(4)}'
                         else:
                             match = re.match( rf'(\s*)({bkName_RE}) ({CorV_RE})(\s*\.?)$', bit )
-                            if match: # e.g., Jud 4
+                            if match: # e.g., Jud 4 (or a whole chapter, e.g., Gen 4)
                                 #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchF '{match.group(1)}' '{match.group(2)}' '{match.group(3)}' '{match.group(4)}'")
                                 currentBBB = BRL.getBBBFromText( match.group(2) )
                                 #dPrint( 'Info', DEBUGGING_THIS_MODULE, currentBBB )
-                                assert BibleOrgSysGlobals.loadedBibleBooksCodes.isSingleChapterBook( currentBBB )
-                                USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                                USFMBookCode = getUSFMBookCode( currentBBB )
                                 if USFMBookCode:
                                     bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(3)}">{match.group(2)} {match.group(3)}</ref>{match.group(4)}'
                             else:
                                 match = re.match( rf'(\s*)({CV_RE}[-–]{CV_RE})(\s*\.?)$', bit )
                                 if match: # e.g., 1:2-3:4
                                     #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchAA '{match.group(1)}' '{match.group(2)}' '{match.group(3)}'")
-                                    USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                                    USFMBookCode = getUSFMBookCode( currentBBB )
                                     if USFMBookCode:
                                         bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(2).replace("–","-")}">{match.group(2)}</ref>{match.group(3)}'
                                 else:
                                     match = re.match( rf'(\s*)({CV_RE}[-–]{CorV_RE})(\s*\.?)$', bit )
                                     if match: # e.g., 1:2-6
                                         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchBB '{match.group(1)}' '{match.group(2)}' '{match.group(3)}'")
-                                        USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                                        USFMBookCode = getUSFMBookCode( currentBBB )
                                         if USFMBookCode:
                                             bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(2).replace("–","-")}">{match.group(2)}</ref>{match.group(3)}'
                                     else:
                                         match = re.match( rf'(\s*)({CorV_RE}):({CorV_RE})(, ?)({CorV_RE})(\s*\.?)$', bit )
                                         if match: # e.g., 3:5,9
                                             #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchCC '{match.group(1)}' '{match.group(2)}' '{match.group(3)}' '{match.group(4)}' '{match.group(5)}' '{match.group(6)}'")
-                                            USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                                            USFMBookCode = getUSFMBookCode( currentBBB )
                                             if USFMBookCode:
                                                 bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(2)}:{match.group(3)}">{match.group(2)}:{match.group(3)}</ref>{match.group(4)}<ref loc="{USFMBookCode} {match.group(2)}:{match.group(5)}">{match.group(5)}</ref>{match.group(6)}'
                                         else:
                                             match = re.match( rf'(\s*)({CV_RE})(\s*\.?)$', bit )
                                             if match: # e.g., 3:5
                                                 #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"MatchDD '{match.group(1)}' '{match.group(2)}' '{match.group(3)}'")
-                                                USFMBookCode = BibleOrgSysGlobals.loadedBibleBooksCodes.getUSFMAbbreviation( currentBBB ).upper()
+                                                USFMBookCode = getUSFMBookCode( currentBBB )
                                                 if USFMBookCode:
                                                     bitResult = f'{match.group(1)}<ref loc="{USFMBookCode} {match.group(2)}">{match.group(2)}</ref>{match.group(3)}'
                                             else: logging.critical( f"toUSX makeRefs unable to parse {BBB} {C}:{V} '{bit}'")
-- 
2.43.0


From 1d3cdd115c619e83261417d7d3193404ff5d0b01 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 156/187] fix: USX exports keep all the fields and text of
 notes

---
 BibleOrgSys/BibleWriter.py         | 214 ++--------------------
 BibleOrgSys/Formats/USXXMLBible.py | 276 +++++++----------------------
 2 files changed, 73 insertions(+), 417 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7f1bca1..dd1e6b9 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3856,6 +3856,7 @@ class BibleWriter( InternalBible ):
 
         If a schema is given (either a path or URL), the XML output files are validated.
         """
+        from BibleOrgSys.Formats.USXXMLBible import makeUSXNoteContents
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, "Running BibleWriter:toUSX2XML…" )
         logging.critical( "toUSX2XML is DEPRECATED and will soon be removed!!!" )
         if self.doExtraChecking: assert self.books
@@ -3947,210 +3948,15 @@ class BibleWriter( InternalBible ):
             def handleNotes( text, extras ):
                 """ Integrate notes into the text again. """
 
-                def processXRef( USXxref ):
+                def processNote( USXnote, style ):
                     """
-                    Return the USX XML for the processed cross-reference (xref).
+                    Return the USX XML for the processed footnote, endnote, or cross-reference.
 
-                    NOTE: The parameter here already has the /x and /x* removed.
-
-                    \\x - \\xo 2:2: \\xt Lib 19:9-10; Diy 24:19.\\xt*\\x* (Backslashes are shown doubled here)
-                        gives
-                    <note style="x" caller="-"><char style="xo" closed="false">1:3: </char><char style="xt">2Kur 4:6.</char></note>
+                    NOTE: The parameter here already has the /f and /f* (or /fe and /fe*, or /x and /x*) removed.
                     """
-                    USXxrefXML = '<note ' if version>=2 else '<note style="x" '
-                    xoOpen = xtOpen = False
-                    for j,token in enumerate(USXxref.split('\\')):
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSX2XML:processXRef", j, "'"+token+"'", "from", '"'+USXxref+'"', xoOpen, xtOpen )
-                        lcToken = token.lower()
-                        if j==0: # The first token (but the x has already been removed)
-                            USXxrefXML += ('caller="{}" style="x">' if version>=2 else 'caller="{}">') \
-                                .format( token.rstrip() )
-                        elif lcToken.startswith('xo '): # xref reference follows
-                            if xoOpen: # We have multiple xo fields one after the other (probably an encoding error)
-                                if self.doExtraChecking: assert not xtOpen
-                                USXxrefXML += ' closed="false">' + adjToken + '</char>'
-                                xoOpen = False
-                            if xtOpen: # if we have multiple cross-references one after the other
-                                USXxrefXML += ' closed="false">' + adjToken + '</char>'
-                                xtOpen = False
-                            adjToken = token[3:]
-                            USXxrefXML += '<char style="xo"'
-                            xoOpen = True
-                        elif lcToken.startswith('xo*'):
-                            if self.doExtraChecking: assert xoOpen and not xtOpen
-                            USXxrefXML += '>' + adjToken + '</char>'
-                            xoOpen = False
-                        elif lcToken.startswith('xt '): # xref text follows
-                            if xtOpen: # Multiple xt's in a row
-                                if self.doExtraChecking: assert not xoOpen
-                                USXxrefXML += ' closed="false">' + adjToken + '</char>'
-                            if xoOpen:
-                                USXxrefXML += ' closed="false">' + adjToken + '</char>'
-                                xoOpen = False
-                            adjToken = token[3:]
-                            USXxrefXML += '<char style="xt"'
-                            xtOpen = True
-                        elif lcToken.startswith('xt*'):
-                            if self.doExtraChecking: assert xtOpen and not xoOpen
-                            USXxrefXML += '>' + adjToken + '</char>'
-                            xtOpen = False
-                        #elif lcToken in ('xo*','xt*','x*',):
-                        #    pass # We're being lazy here and not checking closing markers properly
-                        else:
-                            logger.critical( _("toUSX2XML: Unprocessed {!r} token in {} {}:{} xref {!r}").format( token, BBB, C, V, USXxref ) )
-                    if xoOpen:
-                        if self.doExtraChecking: assert not xtOpen
-                        USXxrefXML += ' closed="false">' + adjToken + '</char>'
-                        xoOpen = False
-                    if xtOpen:
-                        USXxrefXML += ' closed="false">' + adjToken + '</char>'
-                    USXxrefXML += '</note>'
-                    return USXxrefXML
-                # end of toUSX2XML.processXRef
-
-                def processFootnote( USXfootnote, style='f' ):
-                    """
-                    Return the USX XML for the processed footnote.
-
-                    NOTE: The parameter here already has the /f and /f* removed.
-
-                    \\f + \\fr 1:20 \\ft Su ka kaluwasan te Nawumi ‘keupianan,’ piru ka kaluwasan te Mara ‘masakit se geyinawa.’\\f* (Backslashes are shown doubled here)
-                        gives
-                    <note style="f" caller="+"><char style="fr" closed="false">2:23 </char><char style="ft">Te Hibruwanen: bayew egpekegsahid ka ngaran te “malitan” wey “lukes.”</char></note>
-                    """
-                    USXfootnoteXML = f'<note style="{style}" '
-                    frOpen = fTextOpen = fCharOpen = False
-                    for j,token in enumerate(USXfootnote.split('\\')):
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX processFootnote {j}: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
-                        lcToken = token.lower()
-                        if j==0:
-                            USXfootnoteXML += f'caller="{token.rstrip()}">'
-                        elif lcToken.startswith('fr '): # footnote reference follows
-                            if frOpen:
-                                if self.doExtraChecking: assert not fTextOpen
-                                logger.error( _("toUSX2XML: Two consecutive fr fields in {} {}:{} footnote {!r}").format( token, BBB, C, V, USXfootnote ) )
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                frOpen = False
-                            if fTextOpen:
-                                if self.doExtraChecking: assert not frOpen
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                fTextOpen = False
-                            if self.doExtraChecking: assert not fCharOpen
-                            adjToken = token[3:]
-                            USXfootnoteXML += '<char style="fr"'
-                            frOpen = True
-                        elif lcToken.startswith('fr* '):
-                            if self.doExtraChecking: assert frOpen and not fTextOpen and not fCharOpen
-                            USXfootnoteXML += f'>{adjToken}</char>'
-                            frOpen = False
-                        elif lcToken.startswith('ft ') or lcToken.startswith('fq ') or lcToken.startswith('fqa ') or lcToken.startswith('fv ') or lcToken.startswith('fk '):
-                            if fCharOpen:
-                                if self.doExtraChecking: assert not frOpen
-                                USXfootnoteXML += f'>{adjToken}</char>'
-                                fCharOpen = False
-                            if frOpen:
-                                if self.doExtraChecking: assert not fTextOpen
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                frOpen = False
-                            if fTextOpen:
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                fTextOpen = False
-                            fMarker = lcToken.split()[0] # Get the bit before the space
-                            USXfootnoteXML += f'<char style="{fMarker}"'
-                            adjToken = token[len(fMarker)+1:] # Get the bit after the space
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{!r} {!r}".format( fMarker, adjToken ) )
-                            fTextOpen = True
-                        elif lcToken.startswith('ft*') or lcToken.startswith('fq*') or lcToken.startswith('fqa*') or lcToken.startswith('fv*') or lcToken.startswith('fk*'):
-                            #if BibleOrgSysGlobals.debugFlag:
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSX2XML.processFootnote: Problem with {} {} {} in {} {}:{} footnote {!r} part {!r}".format( fTextOpen, frOpen, fCharOpen, BBB, C, V, USXfootnote, lcToken ) )
-                                #assert fTextOpen and not frOpen and not fCharOpen
-                            if frOpen or fCharOpen or not fTextOpen:
-                                logger.error( "toUSX2XML.processFootnote: Closing problem at {} {}:{} in footnote {!r}".format( BBB, C, V, USXfootnote ) )
-                            USXfootnoteXML += f'>{adjToken}</char>'
-                            fTextOpen = False
-                        elif lcToken.startswith('z'):
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX processFootnote {j} custom: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
-                            ixSpace = lcToken.find( ' ' )
-                            if ixSpace == -1: ixSpace = 9999
-                            ixAsterisk = lcToken.find( '*' )
-                            if ixAsterisk == -1: ixAsterisk = 9999
-                            if ixSpace < ixAsterisk: # Must be an opening marker
-                                if fCharOpen:
-                                    if self.doExtraChecking: assert not frOpen
-                                    USXfootnoteXML += f'>{adjToken}</char>'
-                                    fCharOpen = False
-                                if frOpen:
-                                    if self.doExtraChecking: assert not fTextOpen
-                                    USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                    frOpen = False
-                                if fTextOpen:
-                                    USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                    fTextOpen = False
-                                marker = lcToken[:ixSpace]
-                                USXfootnoteXML += f'<char style="{marker}"'
-                                adjToken = token[len(marker)+1:] # Get the bit after the space
-                                fCharOpen = marker
-                            elif ixAsterisk < ixSpace: # Must be an closing marker
-                                if not fCharOpen:
-                                    logger.error( "toUSX2XML.processFootnote: Closing problem at {} {}:{} in custom footnote {!r}".format( BBB, C, V, USXfootnote ) )
-                                USXfootnoteXML += f'>{adjToken}</char>'
-                                fCharOpen = False
-                            else:
-                                logger.error( "toUSX2XML.processFootnote: Marker roblem at {} {}:{} in custom footnote {!r}".format( BBB, C, V, USXfootnote ) )
-                        else: # Could be character formatting (or closing of character formatting)
-                            subTokens = lcToken.split()
-                            firstToken = subTokens[0]
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ft", firstToken )
-                            if firstToken in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # Yes, confirmed
-                                if fCharOpen: # assume that the last one is closed by this one
-                                    if self.doExtraChecking: assert not frOpen
-                                    USXfootnoteXML += f'>{adjToken}</char>'
-                                    fCharOpen = False
-                                if frOpen:
-                                    if self.doExtraChecking: assert not fCharOpen
-                                    USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                    frOpen = False
-                                USXfootnoteXML += f'<char style="{firstToken}"'
-                                adjToken = token[len(firstToken)+1:] # Get the bit after the space
-                                fCharOpen = firstToken
-                            else: # The problem is that a closing marker doesn't have to be followed by a space
-                                if firstToken[-1]=='*' and firstToken[:-1] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # it's a closing tag (that was followed by a space)
-                                    if fCharOpen:
-                                        if self.doExtraChecking: assert not frOpen
-                                        if not firstToken.startswith( fCharOpen+'*' ): # It's not a matching tag
-                                            logger.warning( _("toUSX2XML: {!r} closing tag doesn't match {!r} in {} {}:{} footnote {!r}").format( firstToken, fCharOpen, BBB, C, V, USXfootnote ) )
-                                        USXfootnoteXML += f'>{adjToken}</char>'
-                                        fCharOpen = False
-                                    logger.warning( _("toUSX2XML: {!r} closing tag doesn't match in {} {}:{} footnote {!r}").format( firstToken, BBB, C, V, USXfootnote ) )
-                                else:
-                                    ixAS = firstToken.find( '*' )
-                                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, firstToken, ixAS, firstToken[:ixAS] if ixAS!=-1 else '' )
-                                    if ixAS!=-1 and ixAS<4 and firstToken[:ixAS] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # it's a closing tag
-                                        if fCharOpen:
-                                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
-                                                assert not frOpen
-                                            if not firstToken.startswith( fCharOpen+'*' ): # It's not a matching tag
-                                                logger.warning( _("toUSX2XML: {!r} closing tag doesn't match {!r} in {} {}:{} footnote {!r}").format( firstToken, fCharOpen, BBB, C, V, USXfootnote ) )
-                                            USXfootnoteXML += f'>{adjToken}</char>'
-                                            fCharOpen = False
-                                        logger.warning( _("toUSX2XML: {!r} closing tag doesn't match in {} {}:{} footnote {!r}").format( firstToken, BBB, C, V, USXfootnote ) )
-                                    else:
-                                        logger.critical( _("toUSX2XML: Unprocessed {!r} token in {} {}:{} footnote {!r}").format( firstToken, BBB, C, V, USXfootnote ) )
-                                        dPrint( 'Never', DEBUGGING_THIS_MODULE, "toUSX2XML USFMAllExpandedCharacterMarkers", BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers )
-                                        if self.doExtraChecking: halt
-                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", frOpen, fCharOpen, fTextOpen )
-                    if frOpen:
-                        logger.warning( _("toUSX2XML: Unclosed 'fr' token in {} {}:{} footnote {!r}").format( BBB, C, V, USXfootnote) )
-                        if self.doExtraChecking: assert not fCharOpen and not fTextOpen
-                        USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                    if fCharOpen:
-                        logger.info( _("toUSX2XML: Unclosed {!r} token in {} {}:{} footnote {!r}").format( fCharOpen, BBB, C, V, USXfootnote) )
-                    if fTextOpen or fCharOpen:
-                        USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                    USXfootnoteXML += '</note>'
-                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '', USXfootnote, USXfootnoteXML )
-                    return USXfootnoteXML
-                # end of toUSX2XML.processFootnote
+                    caller, noteXML = makeUSXNoteContents( USXnote )
+                    return f'<note caller="{caller}" style="{style}">{noteXML}</note>'
+                # end of toUSX2XML.processNote
 
 
                 adjText = text
@@ -4172,12 +3978,12 @@ class BibleWriter( InternalBible ):
                         #adjText = checkText( extraText, checkLeftovers=False ) # do any general character formatting
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
                         if extraType == 'fn':
-                            extra = processFootnote( extraText )
+                            extra = processNote( extraText, 'f' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'en':
-                            extra = processFootnote( extraText, 'fe' )
+                            extra = processNote( extraText, 'fe' )
                         elif extraType == 'xr':
-                            extra = processXRef( extraText )
+                            extra = processNote( extraText, 'x' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xr got", extra )
                         elif extraType == 'fig':
                             logger.critical( "USXXML figure not handled yet" )
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 7fa3915..71ca7a4 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -475,6 +475,59 @@ def makeRefs( BBB:str, C:str, V:str, BRL, text:str ) -> str:
 # end of makeRefs for USX3
 
 
+def makeUSXNoteContents( noteText:str, makeRefsFunction=None ) -> tuple[str,str]:
+    """
+    Given the (escaped) USFM text of a footnote, endnote, or cross-reference, e.g., '+ \\fr 1:20 \\ft Some text'
+        (i.e., without its outer markers)
+    return the note caller and the XML for the contents of the USX note element.
+
+    Fields which aren't closed in the USFM (but by the next field or at the end of the note) get a closed="false" attribute.
+    If makeRefsFunction is given, it's used to liven the references in xt fields.
+    """
+    openFields = [['','']] # The note itself, plus any open fields, each one with its XML so far
+
+    def addText( text:str ) -> None:
+        if openFields[-1][0]=='xt' and makeRefsFunction and text: text = makeRefsFunction( text )
+        openFields[-1][1] += text
+    # end of addText function
+
+    def closeField( closedExplicitly:bool ) -> None:
+        fieldMarker, fieldXML = openFields.pop()
+        attributes = ''
+        if fieldMarker=='w' and '|' in fieldXML: # It has word attributes
+            fieldXML, _pipe, attributes = fieldXML.partition( '|' )
+            attributes = attributes.strip().replace( '&quot;', '"' )
+            attributes = f' {attributes}' if '=' in attributes else f' lemma="{attributes}"' # It's the default attribute
+        closedBit = '' if closedExplicitly else ' closed="false"'
+        openFields[-1][1] += f'<char style="{fieldMarker}"{closedBit}{attributes}>{fieldXML}</char>'
+    # end of closeField function
+
+    callerBit, *tokens = noteText.split( '\\' )
+    caller, _space, initialText = callerBit.partition( ' ' )
+    addText( initialText )
+    for token in tokens:
+        match = re.match( r'(\+?)([A-Za-z][A-Za-z0-9]*)(\*| |$)', token )
+        if not match:
+            logging.critical( f"makeUSXNoteContents: Unable to handle backslash in note {noteText!r}" )
+            addText( token )
+            continue
+        nestedFlag, fieldMarker, terminator = match.groups()
+        fieldMarker = fieldMarker.lower()
+        if terminator == '*': # It's closing a field
+            if fieldMarker in (openMarker for openMarker,_xml in openFields[1:]):
+                while openFields[-1][0] != fieldMarker: closeField( closedExplicitly=False )
+                closeField( closedExplicitly=True )
+            else: logging.warning( f"makeUSXNoteContents: Ignored unexpected {fieldMarker!r} closing marker in note {noteText!r}" )
+        else: # It's opening a field
+            if not nestedFlag: # then it closes whatever was open before
+                while len(openFields) > 1: closeField( closedExplicitly=False )
+            openFields.append( [fieldMarker,''] )
+        addText( token[match.end():] )
+    while len(openFields) > 1: closeField( closedExplicitly=False )
+    return caller, openFields[0][1]
+# end of makeUSXNoteContents function
+
+
 def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationSchema ) -> bool:
     """
     Or toUSX3XML
@@ -604,222 +657,19 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
         def _handleNotesAndExtras( text:str, extras ) -> str:
             """ Integrate notes into the text again. """
 
-            def _processXRef( USXxref:str ) -> str:
+            def _processNote( USXnote:str, style:str ) -> str:
                 """
-                Return the USX XML for the processed cross-reference (xref).
+                Return the USX XML for the processed footnote, endnote, or cross-reference.
 
-                NOTE: The parameter here already has the /x and /x* removed.
-
-                \\x - \\xo 2:2: \\xt Lib 19:9-10; Diy 24:19.\\xt*\\x* (Backslashes are shown doubled here)
-                    gives
-                <note style="x" caller="-"><char style="xo" closed="false">1:3: </char><char style="xt">2Kur 4:6.</char></note>
-                """
-                USXxrefXML = '\n    <note '
-                xoOpen = xtOpen = False
-                for j,token in enumerate(USXxref.split('\\')):
-                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSXXML:_processXRef", j, "'"+token+"'", "from", '"'+USXxref+'"', xoOpen, xtOpen )
-                    lcToken = token.lower()
-                    if j==0: # The first token (but the x has already been removed)
-                        USXxrefXML += f'caller="{token.rstrip()}" style="x">' if version>=2 else 'caller="{}">'
-                    elif lcToken.startswith('xo '): # xref reference follows
-                        if xoOpen: # We have multiple xo fields one after the other (probably an encoding error)
-                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not xtOpen
-                            USXxrefXML += f' closed="false">{adjToken}</char>'
-                            xoOpen = False
-                        if xtOpen: # if we have multiple cross-references one after the other
-                            USXxrefXML += f' closed="false">{adjToken}</char>'
-                            xtOpen = False
-                        adjToken = token[3:]
-                        USXxrefXML += '<char style="xo"'
-                        xoOpen = True
-                    elif lcToken.startswith('xo*'):
-                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert xoOpen and not xtOpen
-                        USXxrefXML += f'>{adjToken}</char>'
-                        xoOpen = False
-                    elif lcToken.startswith('xt '): # xref text follows
-                        if xtOpen: # Multiple xt's in a row
-                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not xoOpen
-                            USXxrefXML += f' closed="false">{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
-                        if xoOpen:
-                            USXxrefXML += f' closed="false">{adjToken}</char>'
-                            xoOpen = False
-                        adjToken = token[3:]
-                        USXxrefXML += '<char style="xt"'
-                        xtOpen = True
-                    elif lcToken.startswith('xt*'):
-                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert xtOpen and not xoOpen
-                        USXxrefXML += f'>{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
-                        xtOpen = False
-                    #elif lcToken in ('xo*','xt*','x*',):
-                    #    pass # We're being lazy here and not checking closing markers properly
-                    else:
-                        logger.critical( _("toUSXXML: Unprocessed {!r} token in {} {}:{} xref {!r}").format( token, BBB, C,V, USXxref ) )
-                if xoOpen:
-                    if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not xtOpen
-                    USXxrefXML += f' closed="false">{adjToken}</char>'
-                    xoOpen = False
-                if xtOpen:
-                    USXxrefXML += f' closed="false">{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
-                USXxrefXML += '</note>'
-                return USXxrefXML
-            # end of toUSXXML._processXRef
-
-            def _processFootnote( USXfootnote:str, style:str='f' ) -> str:
-                """
-                Return the USX XML for the processed footnote.
-
-                NOTE: The parameter here already has the /f and /f* removed.
+                NOTE: The parameter here already has the /f and /f* (or /fe and /fe*, or /x and /x*) removed.
 
                 \\f + \\fr 1:20 \\ft Su ka kaluwasan te Nawumi ‘keupianan,’ piru ka kaluwasan te Mara ‘masakit se geyinawa.’\\f* (Backslashes are shown doubled here)
                     gives
-                <note style="f" caller="+"><char style="fr" closed="false">2:23 </char><char style="ft">Te Hibruwanen: bayew egpekegsahid ka ngaran te “malitan” wey “lukes.”</char></note>
+                <note caller="+" style="f"><char style="fr" closed="false">2:23 </char><char style="ft" closed="false">Te Hibruwanen: bayew egpekegsahid ka ngaran te “malitan” wey “lukes.”</char></note>
                 """
-                USXfootnoteXML = '\n    <note '
-                frOpen = fTextOpen = fCharOpen = xtOpen = False
-                for j,token in enumerate(USXfootnote.split('\\')):
-                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX _processFootnote {j}: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
-                    lcToken = token.lower()
-                    if j==0:
-                        USXfootnoteXML += f'caller="{token.rstrip()}" style="{style}">'
-                    elif lcToken.startswith('fr '): # footnote reference follows
-                        if frOpen:
-                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fTextOpen
-                            logger.error( _("toUSXXML: Two consecutive fr fields in {} {}:{} footnote {!r}").format( token, BBB, C,V, USXfootnote ) )
-                            USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                            frOpen = False
-                        if fTextOpen:
-                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not frOpen
-                            USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                            fTextOpen = False
-                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fCharOpen
-                        adjToken = token[3:]
-                        USXfootnoteXML += '<char style="fr"'
-                        frOpen = True
-                    elif lcToken.startswith('fr* '):
-                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert frOpen and not fTextOpen and not fCharOpen
-                        USXfootnoteXML += f'>{adjToken}</char>'
-                        frOpen = False
-                    elif lcToken.startswith('ft ') or lcToken.startswith('fq ') or lcToken.startswith('fqa ') or lcToken.startswith('fv ') or lcToken.startswith('fk '):
-                        if fCharOpen:
-                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not frOpen
-                            USXfootnoteXML += f'>{adjToken}</char>'
-                            fCharOpen = False
-                        if frOpen:
-                            if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fTextOpen
-                            USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                            frOpen = False
-                        if fTextOpen:
-                            USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                            fTextOpen = False
-                        fMarker = lcToken.split()[0] # Get the bit before the space
-                        USXfootnoteXML += f'<char style="{fMarker}"'
-                        adjToken = token[len(fMarker)+1:] # Get the bit after the space
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{!r} {!r}".format( fMarker, adjToken ) )
-                        fTextOpen = True
-                    elif lcToken.startswith('ft*') or lcToken.startswith('fq*') or lcToken.startswith('fqa*') or lcToken.startswith('fv*') or lcToken.startswith('fk*'):
-                        #if BibleOrgSysGlobals.debugFlag:
-                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSXXML._processFootnote: Problem with {} {} {} in {} {}:{} footnote {!r} part {!r}".format( fTextOpen, frOpen, fCharOpen, BBB, C,V, USXfootnote, lcToken ) )
-                            #assert fTextOpen and not frOpen and not fCharOpen
-                        if frOpen or fCharOpen or not fTextOpen:
-                            logger.error( "toUSXXML._processFootnote: Closing problem at {} {}:{} in footnote {!r}".format( BBB, C,V, USXfootnote ) )
-                        USXfootnoteXML += f'>{adjToken}</char>'
-                        fTextOpen = False
-                    elif lcToken.startswith('xt '): # xref text follows
-                        if xtOpen: # Multiple xt's in a row
-                            # if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not xoOpen
-                            USXfootnoteXML += f' closed="false">{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
-                        adjToken = token[3:]
-                        USXfootnoteXML += '<char style="xt"'
-                        xtOpen = True
-                    elif lcToken.startswith('xt*'):
-                        # if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert xtOpen and not xoOpen
-                        USXfootnoteXML += f'>{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
-                        xtOpen = False
-                    elif lcToken.startswith('z'):
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX _processFootnote {j} custom: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
-                        ixSpace = lcToken.find( ' ' )
-                        if ixSpace == -1: ixSpace = 9999
-                        ixAsterisk = lcToken.find( '*' )
-                        if ixAsterisk == -1: ixAsterisk = 9999
-                        if ixSpace < ixAsterisk: # Must be an opening marker
-                            if fCharOpen:
-                                if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not frOpen
-                                USXfootnoteXML += f'>{adjToken}</char>'
-                                fCharOpen = False
-                            if frOpen:
-                                if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fTextOpen
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                frOpen = False
-                            if fTextOpen:
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                fTextOpen = False
-                            marker = lcToken[:ixSpace]
-                            USXfootnoteXML += f'<char style="{marker}"'
-                            adjToken = token[len(marker)+1:] # Get the bit after the space
-                            fCharOpen = marker
-                        elif ixAsterisk < ixSpace: # Must be an closing marker
-                            if not fCharOpen:
-                                logger.error( "toUSXXML._processFootnote: Closing problem at {} {}:{} in custom footnote {!r}".format( BBB, C,V, USXfootnote ) )
-                            USXfootnoteXML += f'>{adjToken}</char>'
-                            fCharOpen = False
-                        else:
-                            logger.error( "toUSXXML._processFootnote: Marker roblem at {} {}:{} in custom footnote {!r}".format( BBB, C,V, USXfootnote ) )
-                    else: # Could be character formatting (or closing of character formatting)
-                        subTokens = lcToken.split()
-                        firstToken = subTokens[0]
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ft", firstToken )
-                        if firstToken in USFMAllExpandedCharacterMarkers: # Yes, confirmed
-                            if fCharOpen: # assume that the last one is closed by this one
-                                if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not frOpen
-                                USXfootnoteXML += f'>{adjToken}</char>'
-                                fCharOpen = False
-                            if frOpen:
-                                if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fCharOpen
-                                USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                                frOpen = False
-                            USXfootnoteXML += f'<char style="{firstToken}"'
-                            adjToken = token[len(firstToken)+1:] # Get the bit after the space
-                            fCharOpen = firstToken
-                        else: # The problem is that a closing marker doesn't have to be followed by a space
-                            if firstToken[-1]=='*' and firstToken[:-1] in USFMAllExpandedCharacterMarkers: # it's a closing tag (that was followed by a space)
-                                if fCharOpen:
-                                    if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not frOpen
-                                    if not firstToken.startswith( f'{fCharOpen}*' ): # It's not a matching tag
-                                        logger.warning( _("toUSXXML: {!r} closing tag doesn't match {!r} in {} {}:{} footnote {!r}").format( firstToken, fCharOpen, BBB, C,V, USXfootnote ) )
-                                    USXfootnoteXML += f'>{adjToken}</char>'
-                                    fCharOpen = False
-                                logger.warning( _("toUSXXML: {!r} closing tag doesn't match in {} {}:{} footnote {!r}").format( firstToken, BBB, C,V, USXfootnote ) )
-                            else:
-                                ixAS = firstToken.find( '*' )
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, firstToken, ixAS, firstToken[:ixAS] if ixAS!=-1 else '' )
-                                if ixAS!=-1 and ixAS<4 and firstToken[:ixAS] in USFMAllExpandedCharacterMarkers: # it's a closing tag
-                                    if fCharOpen:
-                                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
-                                            assert not frOpen
-                                        if not firstToken.startswith( f'{fCharOpen}*' ): # It's not a matching tag
-                                            logger.warning( _("toUSXXML: {!r} closing tag doesn't match {!r} in {} {}:{} footnote {!r}").format( firstToken, fCharOpen, BBB, C,V, USXfootnote ) )
-                                        USXfootnoteXML += f'>{adjToken}</char>'
-                                        fCharOpen = False
-                                    logger.warning( _("toUSXXML: {!r} closing tag doesn't match in {} {}:{} footnote {!r}").format( firstToken, BBB, C,V, USXfootnote ) )
-                                else:
-                                    logger.critical( _("toUSXXML: Unprocessed {!r} token in {} {}:{} footnote {!r}").format( firstToken, BBB, C,V, USXfootnote ) )
-                                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSXXML USFMAllExpandedCharacterMarkers", USFMAllExpandedCharacterMarkers )
-                                    if self.doExtraChecking: _processFootnote_failed
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", frOpen, fCharOpen, fTextOpen )
-                if frOpen:
-                    logger.warning( _("toUSXXML: Unclosed 'fr' token in {} {}:{} footnote {!r}").format( BBB, C,V, USXfootnote) )
-                    if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert not fCharOpen and not fTextOpen
-                    USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                if fCharOpen:
-                    logger.info( _("toUSXXML: Unclosed {!r} token in {} {}:{} footnote {!r}").format( fCharOpen, BBB, C,V, USXfootnote) )
-                if fTextOpen or fCharOpen:
-                    USXfootnoteXML += f' closed="false">{adjToken}</char>'
-                if xtOpen:
-                    USXfootnoteXML += f' closed="false">{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
-                USXfootnoteXML += '</note>'
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '', USXfootnote, USXfootnoteXML )
-                return USXfootnoteXML
-            # end of toUSXXML._processFootnote
+                caller, noteXML = makeUSXNoteContents( USXnote, lambda text: makeRefs( BBB, C,V, self.genericBRL, text ) )
+                return f'\n    <note caller="{caller}" style="{style}">{noteXML}</note>'
+            # end of toUSXXML._processNote
 
 
             # Main code for _handleNotesAndExtras
@@ -842,12 +692,12 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     #adjText = checkText( extraText, checkLeftovers=False ) # do any general character formatting
                     #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
                     if extraType == 'fn':
-                        extra = _processFootnote( extraText )
+                        extra = _processNote( extraText, 'f' )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                     elif extraType == 'en':
-                        extra = _processFootnote( extraText, 'fe' )
+                        extra = _processNote( extraText, 'fe' )
                     elif extraType == 'xr':
-                        extra = _processXRef( extraText )
+                        extra = _processNote( extraText, 'x' )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xr got", extra )
                     elif extraType == 'fig':
                         logger.critical( "USXXML figure not handled yet" )
-- 
2.43.0


From 90b26d88b1c9529dd162db4f8b3e680f7f24dd33 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 157/187] fix: USX exports and loads published verse numbers,
 and chapter-level char and note elements

---
 BibleOrgSys/BibleWriter.py             | 11 ++++++-----
 BibleOrgSys/Formats/USXXMLBible.py     | 13 +++++++------
 BibleOrgSys/Formats/USXXMLBibleBook.py |  7 ++++++-
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index dd1e6b9..c7bf040 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3995,7 +3995,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = '' # temp
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # It's put into the verse element as an attribute
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
@@ -4081,16 +4081,17 @@ class BibleWriter( InternalBible ):
                     gotVP = adjText # Just remember it for now
                 elif marker == 'v':
                     V = adjText
-                    if gotVP: # this is the verse number to be published
-                        adjText = gotVP
-                        gotVP = None
                     if paraJustOpened: paraJustOpened = False
                     else:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         if version>=2: xw._writeToBuffer( ' ' ) # Space between verses
                      # Remove anything that'll cause a big XML problem later
                     if adjText:
-                        xw.writeLineOpenSelfclose( 'verse', [('number',adjText.replace('<','').replace('>','').replace('"','')),('style','v')] )
+                        verseAttributes = [('number',adjText.replace('<','').replace('>','').replace('"','')), ('style','v')]
+                        if gotVP: # this is the verse number to be published
+                            verseAttributes.append( ('pubnumber',gotVP.replace('<','').replace('>','').replace('"','')) )
+                            gotVP = None
+                        xw.writeLineOpenSelfclose( 'verse', verseAttributes )
 
                 elif marker in ('v~','p~',):
                     if not adjText: logger.warning( "toUSX2XML: Missing text for {}".format( marker ) ); continue
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 71ca7a4..a09267f 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -709,7 +709,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     elif extraType == 'sem':
                         extra = '' # temp
                     elif extraType == 'vp':
-                        extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                        extra = '' # It's put into the verse element as an attribute
                     elif extraType == 'ww':
                         # NOTE: The insert point for \ww fields is at the end of the previous \w field (immediately before the \w*)
                         #       (but the \w field markers themselves were removed completely)
@@ -839,14 +839,15 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 assert not haveOpenVerse
                 V = adjText
                 haveOpenVerse = True
-                if gotVP: # this is the verse number to be published
-                    adjText = gotVP
-                    gotVP = None
                 if not paraJustOpened:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                 if adjText:
-                    xw.writeLineOpenSelfclose( 'verse', [('number',adjText.replace('<','').replace('>','').replace('"','')),
-                                                            ('style','v'),('sid',f'{USXAbbrev} {C}:{V}')] )
+                    verseAttributes = [('number',adjText.replace('<','').replace('>','').replace('"','')), ('style','v')]
+                    if gotVP: # this is the verse number to be published
+                        verseAttributes.append( ('pubnumber',gotVP.replace('<','').replace('>','').replace('"','')) )
+                        gotVP = None
+                    verseAttributes.append( ('sid',f'{USXAbbrev} {C}:{V}') )
+                    xw.writeLineOpenSelfclose( 'verse', verseAttributes )
                 if not paraJustOpened:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                 paraJustOpened = False
diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 6a90075..6c2e27b 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -178,7 +178,7 @@ class USXXMLBibleBook( BibleBook ):
                     if attrib=='number': V = value
                     elif attrib=='style': verseStyle = value
                     elif attrib=='altnumber': altNumber = value
-                    elif attrib=='pubnumber': pubNumber = value # TODO: not used anywhere!
+                    elif attrib=='pubnumber': pubNumber = value
                     elif attrib=='sid':
                         verseStartId = value
                         assert verseStartId[:3] in filename.upper()
@@ -196,6 +196,7 @@ class USXXMLBibleBook( BibleBook ):
                     or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt # Bad verse style
                 #if altNumber: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(verseStyle), repr(altNumber) ); halt
                 altStuff = ' \\va {}\\va*'.format( altNumber ) if altNumber else ''
+                if pubNumber: altStuff += ' \\vp {}\\vp*'.format( pubNumber )
                 self.addLine( verseStyle, V + altStuff + ' ' )
                 # Now process the tail (if there's one) which is the verse text
                 if verseNumberElement.tail:
@@ -589,6 +590,10 @@ class USXXMLBibleBook( BibleBook ):
                     loadChapterNumberField( element, location )
                 elif element.tag == 'verse': # milestone (not a container in USX)
                     loadVerseNumberField( element, location ) # Not in a paragraph!
+                elif element.tag == 'char': # Not in a paragraph, e.g., ca after a chapter number
+                    self.appendToLastLine( loadCharField( element, location ).rstrip() )
+                elif element.tag == 'note': # Not in a paragraph, e.g., after a chapter number
+                    self.appendToLastLine( loadNoteField( element, location ).rstrip() )
                 elif element.tag == 'para':
                     if C == '-1': V = str( int(V) + 1 ) # first/id line will be -1:0
                     BibleOrgSysGlobals.checkXMLNoTail( element, location )
-- 
2.43.0


From f9bf0653110020dc78f582775076ee127f4213fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 158/187] fix: USX loader accepts notes inside character fields
 and keeps spaces after references

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 6c2e27b..fb00cbb 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -209,6 +209,18 @@ class USXXMLBibleBook( BibleBook ):
         # end of load.loadVerseNumberField
 
 
+        def removeLayout( text:str|None ) -> str:
+            """
+            Notes are often put onto a new (indented) line in the XML file,
+                so remove that whitespace (but not the spaces which belong to the text).
+            """
+            if not text: return ''
+            if text[0] == '\n': text = text.lstrip()
+            if text and '\n' in text[len(text.rstrip()):]: text = text.rstrip()
+            return text
+        # end of load.removeLayout
+
+
         def loadCharField( charElement, charLocation:str, nestedFlag:bool=False ) -> str:
             """
             Load a formatted / char field from the USX XML.
@@ -237,7 +249,8 @@ class USXXMLBibleBook( BibleBook ):
                     logging.error( _("QU52 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
             charMarker = f'+{charStyle}' if nestedFlag else charStyle # USFM needs the plus sign for a character field inside another one
-            charLine = f"\\{charMarker} {'' if BibleOrgSysGlobals.isBlank( charElement.text) else charElement.text}"
+            charText = removeLayout( charElement.text )
+            charLine = f"\\{charMarker} {'' if BibleOrgSysGlobals.isBlank( charText ) else charText}"
             assert '\n' not in charLine
 
             # Now process the subelements -- chars are one of the few multiply embedded fields in USX
@@ -259,7 +272,7 @@ class USXXMLBibleBook( BibleBook ):
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", refLoc, repr(charElement.text), repr(charElement.tail), repr(charElement.text + (charElement.tail if element.tail else '')) )
                     charLine += (subelement.text if not BibleOrgSysGlobals.isBlank(subelement.text) else '') \
-                                + (subelement.tail if not BibleOrgSysGlobals.isBlank(subelement.tail) else '')
+                                + removeLayout( subelement.tail )
                     # TODO: How do we save reference in USFM???
                 elif subelement.tag == 'note':
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "NOTE", BibleOrgSysGlobals.elementStr( subelement ) )
-- 
2.43.0


From 9020f82405fff1b7a75c98909d3a5b494c306e0d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:50:44 +0000
Subject: [PATCH 159/187] fix: USX3 export doesn't add whitespace in front of
 notes

---
 BibleOrgSys/Formats/USXXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index a09267f..5ea73fb 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -668,7 +668,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 <note caller="+" style="f"><char style="fr" closed="false">2:23 </char><char style="ft" closed="false">Te Hibruwanen: bayew egpekegsahid ka ngaran te “malitan” wey “lukes.”</char></note>
                 """
                 caller, noteXML = makeUSXNoteContents( USXnote, lambda text: makeRefs( BBB, C,V, self.genericBRL, text ) )
-                return f'\n    <note caller="{caller}" style="{style}">{noteXML}</note>'
+                return f'<note caller="{caller}" style="{style}">{noteXML}</note>'
             # end of toUSXXML._processNote
 
 
-- 
2.43.0


From 59db7efb467251f2c7eea2b3a45490010b064302 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 160/187] fix: USX loader keeps alternate chapter numbers, and
 optional breaks and spaces in front of other elements

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index fb00cbb..042e8c5 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -115,10 +115,11 @@ class USXXMLBibleBook( BibleBook ):
             else: # it's a chapter start marker
                 V = '0'
                 # Process the attributes
-                chapterStyle = pubNumber = chapterStartId = None
+                chapterStyle = altNumber = pubNumber = chapterStartId = None
                 for attrib,value in chapterNumberElement.items():
                     if attrib=='number': C = value
                     elif attrib=='style': chapterStyle = value
+                    elif attrib=='altnumber': altNumber = value
                     elif attrib=='pubnumber': pubNumber = value
                     elif attrib=='sid':
                         chapterStartId = value
@@ -132,7 +133,7 @@ class USXXMLBibleBook( BibleBook ):
                     logging.warning( _("Unexpected style attribute ({}) in {}").format( chapterStyle, chapterNumberLocation ) )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                 #if pubNumber: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.BBB, C, repr(pubNumber) ); halt
-                self.addLine( 'c', C )
+                self.addLine( 'c', f'{C} \\ca {altNumber}\\ca*' if altNumber else C )
                 if pubNumber: self.addLine( 'cp', pubNumber )
         # end of load.loadChapterNumberField
 
@@ -492,12 +493,12 @@ class USXXMLBibleBook( BibleBook ):
                     #BibleOrgSysGlobals.checkXMLNoAttributes( element, location ) # We ignore attributes!!! XXXXXXXXXX
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
                     self.addPriorityError( 2, C, V, _("Unmatched element in {}").format( location) )
-                    if not BibleOrgSysGlobals.isBlank( element.tail ): self.appendToLastLine( element.tail )
+                    if removeLayout( element.tail ): self.appendToLastLine( removeLayout( element.tail ) )
                 elif element.tag == 'optbreak':
                     BibleOrgSysGlobals.checkXMLNoText( element, location )
                     BibleOrgSysGlobals.checkXMLNoAttributes( element, location )
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
-                    if not BibleOrgSysGlobals.isBlank( element.tail ): self.appendToLastLine( '//' + element.tail )
+                    self.appendToLastLine( '//' + removeLayout( element.tail ) )
                 elif element.tag == 'ref': # In later USX versions
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location )
                     # Process the attribute first
@@ -528,8 +529,7 @@ class USXXMLBibleBook( BibleBook ):
                     figCaption = element.text
                     figLine = '\\fig {}|{}|{}|{}|{}|{}|{}\\fig*'.format( figDesc, figFile, figSize, figLoc, figCopy, figCaption, figRef )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "figLine", figLine )
-                    self.appendToLastLine( figLine )
-                    if not BibleOrgSysGlobals.isBlank( element.tail ): self.appendToLastLine( element.tail )
+                    self.appendToLastLine( figLine + removeLayout( element.tail ) )
                 else:
                     logging.error( _("SW22 Unprocessed {} element after {} {}:{} in {}").format( element.tag, self.BBB, C, V, location ) )
                     self.addPriorityError( 1, C, V, _("Unprocessed {} element").format( element.tag ) )
-- 
2.43.0


From a0896b364a63a611dbe6c6fee61ca56528e9af6a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:01:00 +0000
Subject: [PATCH 161/187] fix: USX loader accepts the attributes of chapter and
 verse elements in any order

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 042e8c5..6a87497 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -116,8 +116,9 @@ class USXXMLBibleBook( BibleBook ):
                 V = '0'
                 # Process the attributes
                 chapterStyle = altNumber = pubNumber = chapterStartId = None
+                C = chapterNumberElement.get( 'number', C ) # The attributes might be in any order
                 for attrib,value in chapterNumberElement.items():
-                    if attrib=='number': C = value
+                    if attrib=='number': pass # Already done
                     elif attrib=='style': chapterStyle = value
                     elif attrib=='altnumber': altNumber = value
                     elif attrib=='pubnumber': pubNumber = value
@@ -175,8 +176,9 @@ class USXXMLBibleBook( BibleBook ):
             else: # it's a verse start marker
                 # Process the attributes first
                 verseStyle = altNumber = pubNumber = verseStartId = None
+                V = verseNumberElement.get( 'number', V ) # The attributes might be in any order
                 for attrib,value in verseNumberElement.items():
-                    if attrib=='number': V = value
+                    if attrib=='number': pass # Already done
                     elif attrib=='style': verseStyle = value
                     elif attrib=='altnumber': altNumber = value
                     elif attrib=='pubnumber': pubNumber = value
-- 
2.43.0


From 5bfd8dadde00032d3b9cbf0bf1b29fc6c76fdfd9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 162/187] fix: USX loader removes the line break after a
 reference in a paragraph

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 6a87497..9221399 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -511,7 +511,7 @@ class USXXMLBibleBook( BibleBook ):
                             logging.error( _("KW74 Unprocessed {} attribute ({}) in {}").format( attrib, value, location ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ref", refLoc, repr(element.text), repr(element.tail), repr(element.text + (element.tail if element.tail else '')) )
-                    self.appendToLastLine( element.text + (element.tail if element.tail else '') )
+                    self.appendToLastLine( element.text + removeLayout( element.tail ) )
                     # TODO: How do we save reference in USFM???
                 elif element.tag == 'figure':
                     BibleOrgSysGlobals.checkXMLNoSubelements( element, location, 'FG11' )
-- 
2.43.0


From 49a96e61ac348addd4da526868774e70efaf827d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:09:26 +0000
Subject: [PATCH 163/187] fix: USX loader keeps references, character styles
 and optional breaks in table cells

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 9221399..27c9ec4 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -681,7 +681,7 @@ class USXXMLBibleBook( BibleBook ):
                                 logging.error( _("LK46 Unprocessed {} attribute ({}) in {}").format( attrib, value, sublocation ) )
                                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
                         assert rowStyle == 'tr'
-                        tableCode = ''
+                        self.addLine( 'tr', '' ) # Cells are appended to this (or to any verse which starts inside the row)
                         for sub2element in subelement:
                             sub2location = sub2element.tag + " in " + sublocation
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  hereT {} {} {}:{} {}".format( self.workName, self.BBB, C, V, sub2location ) )
@@ -701,9 +701,10 @@ class USXXMLBibleBook( BibleBook ):
                                 if BibleOrgSysGlobals.strictCheckingFlag:
                                     assert cellStyle in ('th1','th2','th3','th4', 'thr1','thr2','thr3','thr4', 'tc1','tc2','tc3','tc4', 'tcr1','tcr2','tcr3','tcr4')
                                     assert alignMode in (None, 'start', 'end')
-                                tableCode += '\\{} {}'.format( cellStyle,
-                                                sub2element.text if not BibleOrgSysGlobals.isBlank(sub2element.text) else '' )
-                                assert '\n' not in tableCode
+                                cellText = removeLayout( sub2element.text )
+                                assert '\n' not in cellText
+                                self.appendToLastLine( '\\{} {}'.format( cellStyle,
+                                                cellText if not BibleOrgSysGlobals.isBlank(cellText) else '' ) )
                                 for sub3element in sub2element:
                                     sub3location = sub3element.tag + " in " + sub2location
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    here3", sub3location )
@@ -712,7 +713,7 @@ class USXXMLBibleBook( BibleBook ):
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "NOTE", BibleOrgSysGlobals.elementStr( sub3element ) )
                                         processedNoteField = loadNoteField( sub3element, sub3location )
                                         if BibleOrgSysGlobals.strictCheckingFlag: assert '\n' not in processedNoteField
-                                        tableCode += processedNoteField
+                                        self.appendToLastLine( processedNoteField )
                                         #for sub4element in sub3element:
                                             #sub4location = sub4element.tag + " in " + sub3location
                                             ##dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    here4", sub4location )
@@ -731,20 +732,20 @@ class USXXMLBibleBook( BibleBook ):
                                     elif sub3element.tag == 'char': # Have formatting inside a table
                                         charLine = loadCharField( sub3element, sub3location )
                                         self.appendToLastLine( charLine )
+                                    elif sub3element.tag == 'ref':
+                                        self.appendToLastLine( ( sub3element.text or '' ) + removeLayout( sub3element.tail ) )
+                                    elif sub3element.tag == 'optbreak':
+                                        self.appendToLastLine( '//' + removeLayout( sub3element.tail ) )
                                     else:
                                         logging.error( _("KA29 Unprocessed {} sub3element after {} {}:{} in {}").format( sub3element.tag, self.BBB, C, V, sub3location ) )
                                         self.addPriorityError( 1, C, V, _("Unprocessed {} sub3element").format( sub3element.tag ) )
                                         if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                                    assert '\n' not in tableCode
                             elif sub2element.tag == 'verse':
                                 loadVerseNumberField( sub2element, sub2location )
                             else:
                                 logging.error( _("VA81 Unprocessed {} sub2element after {} {}:{} in {}").format( sub2element.tag, self.BBB, C, V, sub2location ) )
-                                self.addPriorityError( 1, C, V, _("Unprocessed {} sub2element").format( sub3element.tag ) )
+                                self.addPriorityError( 1, C, V, _("Unprocessed {} sub2element").format( sub2element.tag ) )
                                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                        assert '\n' not in tableCode
-                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "tableCode: {}".format( tableCode ) )
-                        self.addLine( 'tr', tableCode )
                 else:
                     logging.error( _("DV60 Unprocessed {} element after {} {}:{} in {}").format( element.tag, self.BBB, C, V, location ) )
                     self.addPriorityError( 1, C, V, _("Unprocessed {} element").format( element.tag ) )
-- 
2.43.0


From fa93fcc3e875d14d6c645c393a0a62ccbe43a857 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 164/187] fix: USX exports put verses that stand outside any
 paragraph into a paragraph

---
 BibleOrgSys/BibleWriter.py         | 6 ++++++
 BibleOrgSys/Formats/USXXMLBible.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c7bf040..7601b5d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4081,6 +4081,9 @@ class BibleWriter( InternalBible ):
                     gotVP = adjText # Just remember it for now
                 elif marker == 'v':
                     V = adjText
+                    if not haveOpenPara: # In USX, verses have to be in a paragraph
+                        xw.writeLineOpen( 'para', ('style','p') )
+                        haveOpenPara = paraJustOpened = True
                     if paraJustOpened: paraJustOpened = False
                     else:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
@@ -4095,6 +4098,9 @@ class BibleWriter( InternalBible ):
 
                 elif marker in ('v~','p~',):
                     if not adjText: logger.warning( "toUSX2XML: Missing text for {}".format( marker ) ); continue
+                    if not haveOpenPara: # e.g., after a heading inside a paragraph
+                        xw.writeLineOpen( 'para', ('style','p') )
+                        haveOpenPara = True
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineText( handleInternalTextMarkersForUSX2(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
                 elif (getMarkerContentType == 'S' # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 5ea73fb..519a773 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -839,6 +839,9 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 assert not haveOpenVerse
                 V = adjText
                 haveOpenVerse = True
+                if not haveOpenPara: # In USX, verses have to be in a paragraph
+                    xw.writeLineOpen( 'para', ('style','p') )
+                    haveOpenPara = paraJustOpened = True
                 if not paraJustOpened:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                 if adjText:
@@ -853,6 +856,9 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 paraJustOpened = False
             elif marker in ('v~','p~',):
                 if not adjText: logger.critical( "toUSXXML: Missing text for {}".format( marker ) ); continue
+                if not haveOpenPara: # e.g., after a heading inside a paragraph
+                    xw.writeLineOpen( 'para', [('style','p'),('vid',f'{USXAbbrev} {C}:{V}')] if haveOpenVerse else ('style','p') )
+                    haveOpenPara = True
                 # if not paraJustOpened: # copying Paratext style
                 #     xw.removeFinalNewline( suppressFollowingIndent=True )
                 xw.writeLineText( _handleInternalTextMarkersForUSX(adjText), noTextCheck=True ) # no checks coz might already have embedded XML
-- 
2.43.0


From 7a37408a1b9c0cde1b00b833087832575a1a2fb6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:51:08 +0000
Subject: [PATCH 165/187] fix: OSIS loader keeps the line break of a verse
 which began without a paragraph after its first words

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index c8b9018..f5ce365 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2182,7 +2182,7 @@ class InternalBibleBook:
 
             #nextMarker, nextText = self._rawLines[j+1] if j<lastJ else (None,None)
 
-            if lastMarker=='v' and marker in USFM_BIBLE_PARAGRAPH_MARKERS and text:
+            if lastMarker=='v' and len(lastText.split())==1 and marker in USFM_BIBLE_PARAGRAPH_MARKERS and text:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "increase: {} {}:{} lines: {}={} {}={}".format( self.BBB, C, V, lastMarker, lastText, marker, text ) )
                 newLines.append( (marker,'') ) # Put the new blank paragraph marker before the v
                 marker = 'v~' # Change the p marker to v~
-- 
2.43.0


From a9a4168ad860d46afadcd718ea2b74971a0e0374 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:51:13 +0000
Subject: [PATCH 166/187] fix: MyBible loader puts paragraph markers inside
 verses on their own lines

---
 BibleOrgSys/Formats/MyBibleBible.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 189eac2..89ef03d 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -590,7 +590,16 @@ class MyBibleBible( Bible ):
                 bookObject.addLine( 'c', str(C) )
                 lastC = C
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, repr(line) )
-            bookObject.addLine( 'v', '{} {}'.format( V, line ) )
+            # Paragraph markers have to be on their own lines
+            segments = re.split( r' *\\(p|m|qm) ', line )
+            text = segments.pop( 0 )
+            while segments and not text: # These come before the verse number
+                bookObject.addLine( segments.pop( 0 ), '' )
+                text = segments.pop( 0 )
+            bookObject.addLine( 'v', '{} {}'.format( V, text ) )
+            while segments:
+                marker = segments.pop( 0 )
+                bookObject.addLine( marker, segments.pop( 0 ) )
         # end of importVerseLine
 
 
-- 
2.43.0


From 0fb806d3116e2fca685354ab2ba24f912e518f61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 167/187] fix: MyBible loader no longer takes the first word of
 a note as its caller

---
 BibleOrgSys/Formats/MyBibleBible.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 89ef03d..1cea8e2 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -566,8 +566,8 @@ class MyBibleBible( Bible ):
             if line.endswith( '<BR>' ): line = line[:-4] # CSLU
 
             # Change MyBible format codes
-            line = line.replace( '<n>{', '\\f ' ).replace( '}</n>', '\\f*' ) # ISV
-            line = line.replace( '<n>', '\\f ' ).replace( '</n>', '\\f*' )
+            line = line.replace( '<n>{', '\\f + \\ft ' ).replace( '}</n>', '\\f*' ) # ISV
+            line = line.replace( '<n>', '\\f + \\ft ' ).replace( '</n>', '\\f*' )
             line = line.replace( '<f>', '\\fn ' ).replace( '</f>', '\\fn*' ) # BTI
             line = line.replace( '<i>', '\\add ' ).replace( '</i>', '\\add*' )
             line = line.replace( '<b>', '\\bd ' ).replace( '</b>', '\\bd*' ) # RHB
@@ -681,8 +681,8 @@ class MyBibleBible( Bible ):
             line = originalLine
 
             # Change MyBible format codes
-            line = line.replace( '<n>{', '\\f ' ).replace( '}</n>', '\\f*' ) # ISV
-            line = line.replace( '<n>', '\\f ' ).replace( '</n>', '\\f*' )
+            line = line.replace( '<n>{', '\\f + \\ft ' ).replace( '}</n>', '\\f*' ) # ISV
+            line = line.replace( '<n>', '\\f + \\ft ' ).replace( '</n>', '\\f*' )
             line = line.replace( '<i>', '\\add ' ).replace( '</i>', '\\add*' )
             line = line.replace( '<e>', '\\em ' ).replace( '</e>', '\\em*' )
             line = line.replace( '<J>', '\\wj ' ).replace( '</J>', '\\wj*' )
-- 
2.43.0


From a6d08b6d6e01b0782b71bc754c499dd58370a652 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 168/187] fix: theWord/MySword/e-Sword/MyBible exports: 3 John
 15 and Revelation 12:18 when the verse before is missing or bridged with it

---
 BibleOrgSys/Formats/ESwordBible.py  | 14 ++++++++++----
 BibleOrgSys/Formats/MyBibleBible.py | 14 ++++++++++----
 BibleOrgSys/Formats/MySwordBible.py | 14 ++++++++++----
 BibleOrgSys/Formats/theWordBible.py | 14 ++++++++++----
 4 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 412a5c8..24f21fb 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1498,15 +1498,21 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                     # Handle some common versification anomalies
                     if (BBB,C,V) == ('JN3',1,14): # Add text for v15 if it exists
                         try:
-                            result15 = bkData.getContextVerseData( ('JN3','1','15',) )
+                            result15 = bkData.getContextVerseData( ('JN3','1','15',), complete=True )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if verseData: # Don't repeat a verse bridge
+                                for entry in verseData15:
+                                    if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                            else: verseData = verseData15 # The previous verse is missing
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
-                            result18 = bkData.getContextVerseData( ('REV','12','18',) )
+                            result18 = bkData.getContextVerseData( ('REV','12','18',), complete=True )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if verseData: # Don't repeat a verse bridge
+                                for entry in verseData18:
+                                    if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                            else: verseData = verseData18 # The previous verse is missing
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 1cea8e2..9feef1b 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1138,15 +1138,21 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                     # Handle some common versification anomalies
                     if (BBB,C,V) == ('JN3',1,14): # Add text for v15 if it exists
                         try:
-                            result15 = bkData.getContextVerseData( ('JN3','1','15',) )
+                            result15 = bkData.getContextVerseData( ('JN3','1','15',), complete=True )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if verseData: # Don't repeat a verse bridge
+                                for entry in verseData15:
+                                    if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                            else: verseData = verseData15 # The previous verse is missing
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
-                            result18 = bkData.getContextVerseData( ('REV','12','18',) )
+                            result18 = bkData.getContextVerseData( ('REV','12','18',), complete=True )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if verseData: # Don't repeat a verse bridge
+                                for entry in verseData18:
+                                    if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                            else: verseData = verseData18 # The previous verse is missing
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index ca221cf..9231ea1 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -498,15 +498,21 @@ def createMySwordModule( self, outputFolder, controlDict ):
                     # Handle some common versification anomalies
                     if (BBB,C,V) == ('JN3',1,14): # Add text for v15 if it exists
                         try:
-                            result15 = bkData.getContextVerseData( ('JN3','1','15',) )
+                            result15 = bkData.getContextVerseData( ('JN3','1','15',), complete=True )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if verseData: # Don't repeat a verse bridge
+                                for entry in verseData15:
+                                    if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                            else: verseData = verseData15 # The previous verse is missing
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
-                            result18 = bkData.getContextVerseData( ('REV','12','18',) )
+                            result18 = bkData.getContextVerseData( ('REV','12','18',), complete=True )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if verseData: # Don't repeat a verse bridge
+                                for entry in verseData18:
+                                    if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                            else: verseData = verseData18 # The previous verse is missing
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 5589ffd..b9ffa57 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1210,15 +1210,21 @@ def createTheWordModule( self, outputFolder, controlDict ):
                 # Handle some common versification anomalies
                 if (BBB,C,V) == ('JN3',1,14): # Add text for v15 if it exists
                     try:
-                        result15 = bkData.getContextVerseData( ('JN3','1','15',) )
+                        result15 = bkData.getContextVerseData( ('JN3','1','15',), complete=True )
                         verseData15, context15 = result15
-                        verseData.extend( verseData15 )
+                        if verseData: # Don't repeat a verse bridge
+                            for entry in verseData15:
+                                if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                        else: verseData = verseData15 # The previous verse is missing
                     except KeyError: pass #  just ignore it
                 elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                     try:
-                        result18 = bkData.getContextVerseData( ('REV','12','18',) )
+                        result18 = bkData.getContextVerseData( ('REV','12','18',), complete=True )
                         verseData18, context18 = result18
-                        verseData.extend( verseData18 )
+                        if verseData: # Don't repeat a verse bridge
+                            for entry in verseData18:
+                                if not any( entry is oldEntry for oldEntry in verseData ): verseData.append( entry )
+                        else: verseData = verseData18 # The previous verse is missing
                     except KeyError: pass #  just ignore it
             if verseData: composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
             assert '\n' not in composedLine # This would mess everything up
-- 
2.43.0


From 28d36e7207e961bc7adf625c6169994a21115cb1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:21:39 +0000
Subject: [PATCH 169/187] fix: Markdown export: keep the note of a verse which
 has nothing else

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7601b5d..e30a76e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1731,7 +1731,7 @@ class BibleWriter( InternalBible ):
                         myFile.write( "\n\n{}\n".format( __formatMarkdownVerseText( BBB, C, V, adjText, extras ) ) )
                     elif marker in ('p',): # Drop out these fields
                         ignoredMarkers.add( marker )
-                    elif adjText:
+                    elif adjText or extras: # A verse might have nothing but a note
                         textBuffer += (' ' if textBuffer else '') + __formatMarkdownVerseText( BBB, C, V, adjText, extras )
                 if textBuffer: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
                 for notesHeading,notesName in ( ('Footnotes','footnoteMD'), ('Endnotes','endnoteMD'), ('Cross References','xrefMD') ):
-- 
2.43.0


From 889a5daaf402751e7b1b820703a3e1fa80b1c468 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 170/187] fix: Zefania export: keep the note of a verse which
 has nothing else

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index e30a76e..d92f3c1 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5974,7 +5974,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'v~':
                     if self.doExtraChecking: assert text or extras
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
-                    if not text: # this is an empty (untranslated) verse
+                    if not text and not extras: # this is an empty (untranslated) verse
                          #logger.warning( "toZefania: Missing text for v~" )
                         text = '- - -' # but we'll put in a filler
                         haveEmbeddedStylesFlag = False
-- 
2.43.0


From 255bb8b2144d7e805a4eb99171f1f53c4af9976d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 171/187] fix: Haggai export: write verses which have nothing
 but a note

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index d92f3c1..b1932c7 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6181,7 +6181,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'v~':
                     if self.doExtraChecking: assert text or extras
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
-                    if not text: logger.warning( "toHaggaiXML: Missing text for v~" ); continue
+                    if not text: logger.warning( "toHaggaiXML: Missing text for v~" )
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
                     if not text: # this is an empty (untranslated) verse
                         text = '- - -' # but we'll put in a filler
@@ -6190,6 +6190,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
+                    if not text and numberAttributes: text = '- - -' # The verse has nothing but a note
                     if text:
                         writerObject.writeLineOpenClose ( 'VERSE', text, numberAttributes )
                         numberAttributes = None
-- 
2.43.0


From 39fbbaedb536230b37c976b0b6ae3bdbce3310d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 172/187] fix: HTML5 export: link 'Book start' to the first
 chapter which the book has

---
 BibleOrgSys/BibleWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b1932c7..bde71c1 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2161,7 +2161,9 @@ class BibleWriter( InternalBible ):
                 ix = bkList.index( myBBB )
                 if ix > 0:
                     writerObject.writeLineOpenClose( 'a', 'Previous book', [('href',filenameDict[bkList[ix-1]]),('class','bookNav')] )
-                writerObject.writeLineOpenClose( 'a', 'Book start', [('href','#CS1'),('class','bookNav')] )
+                firstC = next( (entry.getCleanText() for entry in self.books[myBBB]._processedLines if entry.getMarker()=='c'), None )
+                if firstC: # Some books don't have a chapter 1 (yet), or don't have any chapters
+                    writerObject.writeLineOpenClose( 'a', 'Book start', [('href','#CS'+firstC),('class','bookNav')] )
                 if ix < len(bkList)-1:
                     writerObject.writeLineOpenClose( 'a', 'Next book', [('href',filenameDict[bkList[ix+1]]),('class','bookNav')] )
             writerObject.writeLineClose( 'header' )
-- 
2.43.0


From f4dcc3f7df4a4923c9eb3dfeac48d65576b0203f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:22:03 +0000
Subject: [PATCH 173/187] fix: OSIS export of a book which has nothing but an
 introduction

---
 BibleOrgSys/BibleWriter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index bde71c1..58ae3be 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5247,6 +5247,7 @@ class BibleWriter( InternalBible ):
             needChapterEID = haveOpenParagraph = haveOpenVsID = haveOpenLG = haveOpenL = haveOpenList = False
             lastMarker = unprocessedMarker = ''
             gotVP = None
+            currentChapterNumberString = verseNumberString = '0'
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
@@ -5461,6 +5462,14 @@ class BibleWriter( InternalBible ):
                 writerObject.writeLineOpenSelfclose( 'verse', ('eID',haveOpenVsID) )
                 haveOpenVsID = False
             closeAnyOpenLG() # A file can easily end with a q1 field
+            if haveOpenOutline: # then this book (so far) has nothing but an introduction
+                writerObject.writeLineClose( 'list' )
+                writerObject.writeLineClose( 'div' )
+                haveOpenOutline = False
+            if haveOpenIntro:
+                closeAnyOpenParagraph()
+                writerObject.writeLineClose( 'div' )
+                haveOpenIntro = False
             if haveOpenIntro or haveOpenOutline or haveOpenLG or haveOpenL or unprocessedMarker:
                 logger.error( "toOSIS: a {} {} {} {} {}".format( haveOpenIntro, haveOpenOutline, haveOpenLG, haveOpenL, unprocessedMarker ) )
                 logger.error( "toOSIS: b {} {}:{}".format( BBB, currentChapterNumberString, verseNumberString ) )
-- 
2.43.0


From 6f16fa0c53995b6c8af20d3febf8cc4fb9fce11f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 174/187] fix: getContextVerseDataRange non-strict: return what
 was found if the next chapter is missing

---
 BibleOrgSys/Internals/InternalBibleBook.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index f5ce365..761edd9 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5307,7 +5307,11 @@ class InternalBibleBook:
                             intC += 1
                             intV = 0
                             # Try again with the first verse of the next chapter
-                            thisVerseEntryList = self._CVIndex.getVerseEntries( (str(intC),'0'), strict=True )
+                            try: thisVerseEntryList = self._CVIndex.getVerseEntries( (str(intC),'0'), strict=True )
+                            except KeyError: # The next chapter is missing
+                                if strict: raise
+                                logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}) for {self.workName} {self.BBB} failed at {intC}:0")
+                                break # return what we've got
                             assert isinstance( thisVerseEntryList, InternalBibleEntryList )
                             verseEntryList += thisVerseEntryList
                         else:
-- 
2.43.0


From a68a29839ced10bbf037fa677f594382095b6758 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:22:15 +0000
Subject: [PATCH 175/187] fix: chapter lookups end where the next chapter
 starts, also if chapters are missing

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 8da9dcb..dbc99dd 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -273,14 +273,21 @@ class InternalBibleBookCVIndex:
         Raises a KeyError if the C key doesn't exist.
         """
         firstIndexEntry = self.__indexData[(C,'0')]
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()]
-        except KeyError: # presumably no more chapters
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():]
+        return self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getFollowingChapterIndex( C, firstIndexEntry )]
     # end of InternalBibleBookCVIndex.getChapterEntries
 
 
+    def __getFollowingChapterIndex( self, C:str, firstIndexEntry ) -> int|None:
+        """
+        Given a chapter (or '-1' for the introduction) and its first index entry,
+            return the index of the entry where the following chapter starts (whatever its number is -- some chapters might be missing)
+            or None if it's the last one in the book.
+        """
+        return min( (indexEntry.getEntryIndex() for (ixC,ixV),indexEntry in self.__indexData.items()
+                            if ixV=='0' and ixC!=C and indexEntry.getEntryIndex()>firstIndexEntry.getEntryIndex()), default=None )
+    # end of InternalBibleBookCVIndex.__getFollowingChapterIndex
+
+
     def getVerseEntriesWithContext( self, CVkey:tuple[str,str], strict:bool|None=False, complete:bool|None=False ) -> tuple[InternalBibleEntryList,list[str]]:
         """
         Given C:V, return a 2-tuple containing
@@ -430,18 +437,7 @@ class InternalBibleBookCVIndex:
         except KeyError as err:
             (logging.warning if C=='0' else logging.error)( f"getChapterEntriesWithContext {self.workName} couldn't get {self.BBB} ({C},0){f' from {self.__indexData.keys()}' if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag else ''}")
             raise err
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-        except KeyError: # Couldn't find the next chapter
-            if C != '-1': # presumably no more chapters
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
-            # else it's a bit more complicated finding the introduction because mostly there's no chapter zero
-            try:
-                nextIndexEntry = self.__indexData[('1','0')]
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-            except KeyError: # give up and just return everything
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
+        return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getFollowingChapterIndex( C, firstIndexEntry )] ), firstIndexEntry.getContextList()
     # end of InternalBibleBookCVIndex.getChapterEntriesWithContext
 
 
-- 
2.43.0


From ff3e62a59e6f5c8c85339c3c0c882e5322823541 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:22:21 +0000
Subject: [PATCH 176/187] fix: BibleDoor export: text before a section opened
 by a reference belongs to the previous section

---
 BibleOrgSys/BibleWriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 58ae3be..0ebb486 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3552,6 +3552,11 @@ class BibleWriter( InternalBible ):
                     if pOpen: lastHTML += '</p>'; pOpen = False
                     if not sOpen:
                         logger.warning( "_toBibleDoorJSONCHTML: Have {} section reference {} outside a section in {} {}:{}".format( marker, text, BBB, C, V ) )
+                        if lastHTML or sectionHTML: # Any earlier text belongs to the previous section
+                            sectionHTML += lastHTML
+                            lastHTML = ''
+                            handleBDSection( sectionBCV, sectionHTML, chtmlFile )
+                            sectionHTML = ''
                         thisHTML += '<section class="regularSection">'
                         sOpen = sJustOpened = True
                         sectionBCV = (BBB,C,V)
-- 
2.43.0


From a276a843fc7b89a4c3a3fae0d8adb315e6859220 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:33 +0000
Subject: [PATCH 177/187] fix: BCV export: books without chapters, and chapters
 without verses

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 761edd9..f54cb11 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5381,7 +5381,7 @@ class InternalBibleBook:
                         myFile.write( introLines )
                     introLines = None # Will now cause an error if we try to do more introduction bits -- should only be one intro
                     CVList.append( ('-1',) )
-                elif verseLines:
+                if verseLines:
                     with open( os.path.join( bookFolderpath, self.BBB+'_C'+C+'V'+V+'.txt' ), 'wt', encoding='utf-8' ) as myFile:
                         if BibleOrgSysGlobals.prependBOMFlag:
                             myFile.write( BibleOrgSysGlobals.BOM )
@@ -5390,7 +5390,7 @@ class InternalBibleBook:
                     CVList.append( CVKey )
         if introLines: # handle left-overs for books without chapters
             assert not CVList
-            with open( os.path.join( bookFolderpath, self.BBB+'_C0.txt' ), 'wt', encoding='utf-8' ) as myFile:
+            with open( os.path.join( bookFolderpath, self.BBB+'__Intro.txt' ), 'wt', encoding='utf-8' ) as myFile:
                 if BibleOrgSysGlobals.prependBOMFlag:
                     myFile.write( BibleOrgSysGlobals.BOM )
                 myFile.write( introLines )
-- 
2.43.0


From 1da00cef8a4c1c74b21521687fbb2c6b5e923ddd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:32:37 +0000
Subject: [PATCH 178/187] fix: BibleDoor text export: a remark in a chapter no
 longer changes the last verse of the section

---
 BibleOrgSys/BibleWriter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 0ebb486..2cc638f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2746,8 +2746,7 @@ class BibleWriter( InternalBible ):
                 or C == 'I': # This second part also copes with misuse of
                     if self.doExtraChecking:
                         assert C=='I' or pseudoMarker=='rem' or pseudoMarker.startswith('mte')
-                    if C=='I': V = str( int(V) + 1 )
-                    lastV = V
+                    if C=='I': lastV = V = str( int(V) + 1 ) # (There can also be a remark inside a chapter)
                 if pseudoMarker in ('id','ide','h','toc1','toc2','toc3','rem','ie'): continue # don't need these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorText processing {!r} {!r} {}".format( self.abbreviation, pseudoMarker, fullText[:60]+('…' if len(fullText)>60 else '') ) )
                 if pseudoMarker in ('vp#',):
-- 
2.43.0


From 52d5facc4f61045d4e4bde8b275b8502307a6ea5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:56:19 +0000
Subject: [PATCH 179/187] fix: theWord and MySword exports kept note callers
 other than letters, + and *

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index b9ffa57..6def1a5 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -447,7 +447,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
         for marker in ( 'ft', 'fv', 'fdc', 'fp', 'fw', 'xt', ): # simply remove these markers (but leave behind the text field)
             line = line.replace( '\\'+marker+' ', '' ).replace( '\\'+marker+'*', '' )
         #for caller in '+*abcdefghijklmnopqrstuvwxyz': line.replace('\\f '+caller+' ','<RF>') # Handle single-character callers
-        line = re.sub( r'(\\f [a-z+*]{1,3} )', '<RF>', line ) # Handle one to three character callers
+        line = re.sub( r'(\\f [^ \\]{1,3} )', '<RF>', line ) # Handle one to three character callers
         line = line.replace('\\f ','<RF>').replace('\\f*','<Rf>') # Must be after the italicisation
         #if '\\f' in originalLine:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "o", originalLine )
-- 
2.43.0


From a23ad2e33a1d12d5a37f0ccf12efa23f4e02f716 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 180/187] fix: MyBible export wrote an empty [[]] for note
 callers that are letters or signs

---
 BibleOrgSys/Formats/MyBibleBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 9feef1b..4eeba09 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -816,8 +816,9 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                     noteBits = adjNote.split( '\\' )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "noteBits", noteBits )
                     newNote = ''
-                    for noteBit in noteBits:
+                    for j,noteBit in enumerate( noteBits ):
                         if noteBit in ( '+ ', '- ', '* ', '*  ', ): pass # Just ignore these -- '*  ' is for WEB
+                        elif j==0 and len(noteBit.split())==1: pass # Just ignore any other note caller
                         elif noteBit.startswith( '+ ' ): newNote += (' ' if newNote else '') + noteBit[2:]
                         elif noteBit.rstrip().isdigit(): pass # Just ignore footnote digits
                         elif noteBit.startswith( 'fr ' ): pass # Just ignore the origin markers (since we'll see the footnotes inline anyway)
-- 
2.43.0


From 73acb7c5d1a7556f364a6aa2800c27a7d5cb8338 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:36:32 +0000
Subject: [PATCH 181/187] fix: verse keys accept a suffix after a three-digit
 verse number

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 8efb09d..0a7fdb4 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -227,7 +227,7 @@ class SimpleVerseKey():
                 logging.error( "SimpleVerseKey: bad {!r} BBB in {}".format( BBB, (BBB,C,V,SI) ) ); raise TypeError
             if not isinstance( C, str ) or not 1<=len(C)<=3:
                 logging.error( "SimpleVerseKey: bad {!r} C in {}".format( C, (BBB,C,V,SI) ) ); raise TypeError
-            if not isinstance( V, str ) or not 1<=len(V)<=3:
+            if not isinstance( V, str ) or not 1<=len(V)<=(4 if V[-1:].isalpha() else 3): # Can also have a suffix, e.g., 176a
                 logging.error( "SimpleVerseKey: bad {!r} V in {}".format( V, (BBB,C,V,SI) ) ); raise TypeError
             if not isinstance( SI, str ) or not ( len(SI)<2 or (SI.isdigit() and len(SI)<=4) ):
                 logging.error( "SimpleVerseKey: bad {!r} S/I in {}".format( SI, (BBB,C,V,SI) ) ); raise TypeError
-- 
2.43.0


From b0ff42d425d71ac1ca4d250ccccab9d1b2f005cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 182/187] fix: HTML5 export closes the verse and the paragraph
 before end titles, descriptive titles and speakers

---
 BibleOrgSys/BibleWriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 2cc638f..b01b6a2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2424,6 +2424,7 @@ class BibleWriter( InternalBible ):
                         assert text and not extras
                     writerObject.writeLineOpenClose( 'p', ' ', ('class','peripheralContent') )
                 elif marker in ('mte1','mte2','mte3','mte4', 'imte1','imte2','imte3','imte4',):
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
                     if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     if text: writerObject.writeLineOpenClose( 'h1', text, ('class','endTitle'+marker[3]) )
 
@@ -2490,12 +2491,16 @@ class BibleWriter( InternalBible ):
                     elif marker == 'mr': rClass = 'majorSectionReferenceRange'
                     if text: writerObject.writeLineOpenClose( 'p', createSectionCrossReference(text), ('class',rClass), noTextCheck=True )
                 elif marker == 'd': # descriptive title or Hebrew subtitle
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     if text or extras: writerObject.writeLineOpenClose( 'p', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','descriptiveTitle'), noTextCheck=haveExtraFormatting )
                 elif marker == 'qa': # acrostic heading
                     if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
                     if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     if text or extras: writerObject.writeLineOpenClose( 'p', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','acrosticHeading'), noTextCheck=haveExtraFormatting )
                 elif marker == 'sp': # speaker
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     if text: writerObject.writeLineOpenClose( 'p', text, ('class','speaker') )
                 elif marker in ('p','m','pmo','pm','pmc','pmr','pi1','pi2','pi3','pi4','mi','cls','pc','pr','ph1','ph2','ph3','ph4',) \
                 or marker in ('q1','q2','q3','q4','qr','qc','qm1','qm2','qm3','qm4',):
-- 
2.43.0


From f61cfe3ee3cc0220ee5760d488635797e32fb8ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:02:50 +0000
Subject: [PATCH 183/187] fix: BibleDoor export closes the verse and the
 paragraph before end titles, descriptive titles, speakers and lower section
 headings

---
 BibleOrgSys/BibleWriter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b01b6a2..8fd419d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3447,6 +3447,7 @@ class BibleWriter( InternalBible ):
                         assert text and not extras
                     thisHTML += '<p class="peripheralContent">{}</p>'.format( text )
                 elif marker in ('mte1','mte2','mte3','mte4', 'imte1','imte2','imte3','imte4',):
+                    if vOpen: lastHTML += '</span>'; vOpen = False
                     if pOpen:
                         if self.doExtraChecking: assert sOpen
                         thisHTML += '</p>'; pOpen = False
@@ -3533,8 +3534,8 @@ class BibleWriter( InternalBible ):
                 elif marker in ('s1','s2','s3','s4'):
                     if self.doExtraChecking: assert haveAnySectionHeadings
                     if vOpen: lastHTML += '</span>'; vOpen = False
+                    if pOpen: lastHTML += '</p>'; pOpen = False
                     if marker == 's1':
-                        if pOpen: lastHTML += '</p>'; pOpen = False
                         if sOpen: lastHTML += '</section>'; sOpen = False
                         if lastHTML or sectionHTML:
                             sectionHTML += lastHTML
@@ -3569,6 +3570,8 @@ class BibleWriter( InternalBible ):
                     elif marker == 'mr': rClass = 'majorSectionReferenceRange'
                     thisHTML += '<p class="{}">{}</p>'.format( rClass, text )
                 elif marker == 'd': # descriptive title or Hebrew subtitle
+                    if vOpen: lastHTML += '</span>'; vOpen = False
+                    if pOpen: lastHTML += '</p>'; pOpen = False
                     if text or extras:
                         thisHTML = '<p class="descriptiveTitle">{}</p>'.format( BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, BDGlobals ) )
                 elif marker == 'qa': # acrostic heading
@@ -3577,6 +3580,8 @@ class BibleWriter( InternalBible ):
                     if text or extras:
                         thisHTML = '<p class="acrosticHeading">{}</p>'.format( BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, BDGlobals ) )
                 elif marker == 'sp': # speaker
+                    if vOpen: lastHTML += '</span>'; vOpen = False
+                    if pOpen: lastHTML += '</p>'; pOpen = False
                     thisHTML = '<p class="speaker">{}</p>'.format( text )
 
                 elif marker in ('p','m','pmo','pm','pmc','pmr','pi1','pi2','pi3','pi4','mi','cls','pc','pr','ph1','ph2','ph3','ph4',) \
-- 
2.43.0


From 0273474f1aaf085d29db9c9bb0c890f1092417be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:02:56 +0000
Subject: [PATCH 184/187] fix: BibleDoor index entry of a section that starts
 with a major heading gives its own start

---
 BibleOrgSys/BibleWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8fd419d..9a14735 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3531,6 +3531,7 @@ class BibleWriter( InternalBible ):
                         #currentCompressedIndex.append( indexEntry )
                         #compressedFileOffset += bytesWritten
                     thisHTML += '<h2 class="majorSectionHeading{}">{}</h2>'.format( marker[2], text )
+                    sJustOpened = True # so the index gets the first verse after this heading
                 elif marker in ('s1','s2','s3','s4'):
                     if self.doExtraChecking: assert haveAnySectionHeadings
                     if vOpen: lastHTML += '</span>'; vOpen = False
-- 
2.43.0


From 2e39de9d626bdecf005ba6502c133309d13d2b38 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 185/187] fix: references with a number after words that are no
 book name do not raise an error

---
 BibleOrgSys/Reference/BibleReferences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 9896235..b4f489d 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -923,7 +923,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     S = char
                 elif C and char in self.punctuationDict['chapterVerseSeparator']:
                     status = 3 # Start getting the verse number
-                elif C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
+                elif C and BBB and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
                     V = C
                     C = '1'
                     if char in self.punctuationDict['verseSeparator']:
@@ -1192,7 +1192,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     break # Seems better to break on this one or else we get lots of errors (e.g., if a fr is left open in a footnote)
                 continue
         if status==2 and C: # Getting chapter number
-            if self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
+            if BBB and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
                 status = 4
@@ -1202,7 +1202,7 @@ class BibleReferenceList( BibleReferenceBase ):
         elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
         elif status==4 and temp.isdigit(): # Ended with another entire chapter (like Gen. 3:5; 4) or with another verse of a single chapter book
-            if self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): C, V, S = '1', temp, ''
+            if BBB and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): C, V, S = '1', temp, ''
             else: C, V, S = temp, '', ''
             saveReference( BBB, C, V, S, self.referenceList )
             status = 9
-- 
2.43.0


From 288e255f30256a17d54ed580c237e808e441ff9b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:06:19 +0000
Subject: [PATCH 186/187] fix: MyBible export keeps the first letters of note
 fields it does not know

---
 BibleOrgSys/Formats/MyBibleBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 4eeba09..87ec285 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -831,7 +831,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         elif noteBit.startswith( '+wj*' ): newNote += '</J>' + noteBit[4:]
                         else:
                             logging.error( "MyBible adjustLine: {} {!r} footnote field not handled properly yet.".format( self.abbreviation if self.abbreviation else self.name, noteBit[:3] ) )
-                            newNote += '[[' + noteBit[3:] + ']]'
+                            newNote += '[[' + re.sub( r'^\+?\w+(\*| |$)', '', noteBit ) + ']]' # The marker may have any length
                             if BibleOrgSysGlobals.DEBUGGING_THIS_MODULE and DEBUGGING_THIS_MODULE: halt
                 else: newNote = adjNote # No backslash fields inside note
                 line = line[:match.start()] + '<n>' + newNote + '</n>' + line[match.end():]
-- 
2.43.0


From 6924aac6dee841ff4aec0e491987658c3ce523f5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:19:19 +0000
Subject: [PATCH 187/187] fix: e-Sword loader keeps verses in their chapter
 when its first verse is missing

---
 BibleOrgSys/Formats/ESwordBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 24f21fb..13ca16d 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -530,6 +530,7 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
 
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: {} {}:{} {!r}".format( BBB, C, V, originalLine ) )
     if originalLine is None: # We don't have an entry for this C:V
+        if C!=1 and V==1: bookObject.addLine( 'c', str(C) ) # but there can be later verses in the chapter
         return
 
     if '<span ' in originalLine or '<p ' in originalLine: # Seems to be HTML
-- 
2.43.0

