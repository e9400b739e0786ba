From 76f130b48e703e20f5717c9bda8073219d4e5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 001/121] fix: ilBindImage of a deleted name takes it off the
 free list

The name stayed on the free list, so a later ilGenImages handed out a name that
was in use (and leaked and replaced its image). Also keep the current binding
when the new image cannot be allocated.
---
 DevIL/src-IL/src/il_stack.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..fdf1979 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -32,6 +32,7 @@ typedef struct iFree
 
 
 static ILboolean iEnlargeStack();
+static void iRemoveFreeName(ILuint Name);
 
 static ILuint		StackSize = 0;
 static ILuint		LastUsed = 0;
@@ -88,6 +89,24 @@ ILuint ILAPIENTRY ilGenImage()
     return i;
 }
 
+// A name that is in use again must not be handed out by ilGenImages any more.
+static void iRemoveFreeName(ILuint Name)
+{
+	iFree	*Prev = NULL, *Temp;
+
+	for (Temp = FreeNames; Temp != NULL; Prev = Temp, Temp = (iFree*)Temp->Next) {
+		if (Temp->Name == Name) {
+			if (Prev == NULL)
+				FreeNames = (iFree*)Temp->Next;
+			else
+				Prev->Next = Temp->Next;
+			ifree(Temp);
+			return;
+		}
+	}
+}
+
+
 //! Makes Image the current active image - similar to glBindTexture().
 void ILAPIENTRY ilBindImage(ILuint Image)
 {
@@ -106,8 +125,11 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 
 	if (ImageStack[Image] == NULL) {
 		ImageStack[Image] = ilNewImage(1, 1, 1, 1, 1);
+		if (ImageStack[Image] == NULL)  // Keep the current binding.
+			return;
 		if (Image >= LastUsed) // >= ?
 			LastUsed = Image + 1;
+		iRemoveFreeName(Image);
 	}
 
 	iCurImage = ImageStack[Image];
-- 
2.43.0


From 2a4cabe4761b8bbfb1ad116526c2c548dc726b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 002/121] fix: ilGenImages does not hand out names when the
 image cannot be allocated

---
 DevIL/src-IL/src/il_stack.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index fdf1979..90fb002 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -64,17 +64,21 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 	do {
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
                         TempFree = (iFree*)FreeNames->Next;
-                        Images[Index] = FreeNames->Name;
                         ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
+                        if (ImageStack[FreeNames->Name] == NULL)
+				return;
+                        Images[Index] = FreeNames->Name;
                         ifree(FreeNames);
                         FreeNames = TempFree;
 		} else {
                         if (LastUsed >= StackSize)
 				if (!iEnlargeStack())
 					return;
-			Images[Index] = LastUsed;
 			// Must be all 1's instead of 0's, because some functions would divide by 0.
 			ImageStack[LastUsed] = ilNewImage(1, 1, 1, 1, 1);
+			if (ImageStack[LastUsed] == NULL)
+				return;
+			Images[Index] = LastUsed;
 			LastUsed++;
 		}
 	} while (++Index < Num);
@@ -84,7 +88,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 
 ILuint ILAPIENTRY ilGenImage()
 {
-    ILuint i;
+    ILuint i = 0;
     ilGenImages(1,&i);
     return i;
 }
-- 
2.43.0


From 65f7ca98973e9a5d798d9ab60bc8e5afdcf34cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 003/121] fix: ilCloseImage leaked the mipmaps of an image that
 has faces

---
 DevIL/src-IL/src/il_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 90fb002..d5c7c1c 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -248,7 +248,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 
 	if (Image->Faces != NULL) {
 		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+		Image->Faces = NULL;
 	}
 
 	if (Image->Mipmaps != NULL) {
-- 
2.43.0


From 39834ac0c147a5cd7789da723e09f993cd82c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 004/121] fix: ilCreateSubImage links mipmaps and layers in
 their own lists

Only the first mipmap or layer was linked as one; the others were chained as
images of an animation, so they could not be activated and were not counted.
---
 DevIL/src-IL/src/il_stack.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index d5c7c1c..a9f18db 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -527,10 +527,16 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 	}
 
 	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
-		if (SubImage == NULL)
+		ILimage *NewImage = ilNewImage(1, 1, 1, 1, 1);
+		if (NewImage == NULL)
 			return Count;
+		if (Type == IL_SUB_MIPMAP)
+			SubImage->Mipmaps = NewImage;
+		else if (Type == IL_SUB_LAYER)
+			SubImage->Layers = NewImage;
+		else
+			SubImage->Next = NewImage;
+		SubImage = NewImage;
 	}
 
 	return Count;
-- 
2.43.0


From b27579660dd812df54fd0ef283b08d3934eba359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 005/121] fix: enlarging the image stack keeps the old one when
 it fails

When the larger stack could not be allocated all images were lost, and for high
names the 32-bit size computation wrapped and the stack was overrun.
---
 DevIL/src-IL/src/il_stack.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index a9f18db..f305e44 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -31,7 +31,7 @@ typedef struct iFree
 } iFree;
 
 
-static ILboolean iEnlargeStack();
+static ILboolean iEnlargeStack(ILuint MinSize = 0);
 static void iRemoveFreeName(ILuint Name);
 
 static ILuint		StackSize = 0;
@@ -121,8 +121,12 @@ void ILAPIENTRY ilBindImage(ILuint Image)
 	}
 
 	// If the user requests a high image name.
-	while (Image >= StackSize) {
-		if (!iEnlargeStack()) {
+	if (Image >= StackSize) {
+		if (Image == 0xFFFFFFFFu) {
+			ilSetError(IL_INVALID_VALUE);
+			return;
+		}
+		if (!iEnlargeStack(Image + 1)) {
 			return;
 		}
 	}
@@ -610,8 +614,11 @@ void ilShutDownInternal()
 }
 
 // Internal function to enlarge the image stack by I_STACK_INCREMENT members.
-ILboolean iEnlargeStack()
+ILboolean iEnlargeStack(ILuint MinSize)
 {
+	ILimage	**NewStack;
+	ILuint	NewSize = StackSize + I_STACK_INCREMENT;
+
 	// 02-05-2001:  Moved from ilGenImages().
 	// Puts the cleanup function on the exit handler once.
 	if (!OnExit) {
@@ -624,10 +631,20 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	if (MinSize > NewSize)
+		NewSize = MinSize / I_STACK_INCREMENT * I_STACK_INCREMENT + I_STACK_INCREMENT;
+	if (NewSize < MinSize || NewSize < StackSize || NewSize > 0xFFFFFFFFu / sizeof(ILimage*)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+
+	// Keep the old stack if there is no memory for a larger one.
+	NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), NewSize * sizeof(ILimage*));
+	if (NewStack == NULL) {
 		return IL_FALSE;
 	}
-	StackSize += I_STACK_INCREMENT;
+	ImageStack = NewStack;
+	StackSize = NewSize;
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 0f26a635c92b003dec974c055196f2acc62d6911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 006/121] fix: ilShutDown does not leave the current image
 dangling

---
 DevIL/src-IL/src/il_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index f305e44..557d9b4 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -713,6 +713,9 @@ void ILAPIENTRY ilShutDown()
 	if (ImageStack)
 		ifree(ImageStack);
 	ImageStack = NULL;
+	iCurImage = NULL;  // It has just been freed.
+	CurName = 0;
+	ParentImage = IL_TRUE;
 	LastUsed = 0;
 	StackSize = 0;
 	IsInit = IL_FALSE;
-- 
2.43.0


From 105f0ad0f0670b8729b4c68f9a1d8583cfcadfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 007/121] fix: error stack overflow drops the oldest error, not
 the newest

The shift stopped one short, so the most recent error was overwritten by the new one.
---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From 9f71da6135ade8c2dd6d0e1b15db8ace02b2c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 008/121] fix: iClipString reads and writes within its buffers

It read MaxLen characters of shorter strings and put the terminator behind the
buffer for longer ones.
---
 DevIL/src-IL/src/il_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..b242c7f 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -164,7 +164,9 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	if (Length > MaxLen)
+		Length = MaxLen;
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
-- 
2.43.0


From 42738e92a55d81286ae80de0de0994f2f850180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 009/121] fix: ilPushAttrib keeps pending errors and hints

It reset the states of the new level with ilDefaultStates, which also emptied the
error stack and reset the (not stacked) hints.
---
 DevIL/src-IL/src/il_states.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index b242c7f..72062cf 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -41,7 +41,23 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 
 
 //! Set all states to their defaults.
+static void iDefaultCurStates();
+
 void ilDefaultStates()
+{
+	iDefaultCurStates();
+
+	ilHints.MemVsSpeedHint = IL_FASTEST;
+	ilHints.CompressHint = IL_USE_COMPRESSION;
+
+	while (ilGetError() != IL_NO_ERROR);
+
+	return;
+}
+
+
+// Sets the states on top of the stack to their defaults.
+static void iDefaultCurStates()
 {
 	ilStates[ilCurrentPos].ilOriginSet = IL_FALSE;
 	ilStates[ilCurrentPos].ilOriginMode = IL_ORIGIN_LOWER_LEFT;
@@ -92,14 +108,6 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilUseNVidiaDXT = IL_FALSE;
 	ilStates[ilCurrentPos].ilUseSquishDXT = IL_FALSE;
 
-
-
-
-	ilHints.MemVsSpeedHint = IL_FASTEST;
-	ilHints.CompressHint = IL_USE_COMPRESSION;
-
-	while (ilGetError() != IL_NO_ERROR);
-
 	return;
 }
 
@@ -780,7 +788,7 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 
 	//	memcpy(&ilStates[ilCurrentPos], &ilStates[ilCurrentPos - 1], sizeof(IL_STATES));
 
-	ilDefaultStates();
+	iDefaultCurStates();
 
 	if (Bits & IL_ORIGIN_BIT) {
 		ilStates[ilCurrentPos].ilOriginMode = ilStates[ilCurrentPos-1].ilOriginMode;
-- 
2.43.0


From d7826cb01dbccff52be5b424ebd4b7234c683849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 010/121] fix: ilPushAttrib(IL_FORMAT_SPECIFIC_BIT) crashed
 when a string was not set

---
 DevIL/src-IL/src/il_states.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 72062cf..1089a35 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -773,6 +773,13 @@ ILboolean ILAPIENTRY ilCompressFunc(ILenum Mode)
 }
 
 
+// Strings that have not been set are NULL.
+static char *iDupString(const char *String)
+{
+	return String ? strdup(String) : NULL;
+}
+
+
 //! Pushes the states indicated by Bits onto the state stack
 void ILAPIENTRY ilPushAttrib(ILuint Bits)
 {
@@ -854,20 +861,20 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		if (ilStates[ilCurrentPos].ilCHeader)
 			ifree(ilStates[ilCurrentPos].ilCHeader);
 
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
+		ilStates[ilCurrentPos].ilTgaId = iDupString(ilStates[ilCurrentPos-1].ilTgaId);
+		ilStates[ilCurrentPos].ilTgaAuthName = iDupString(ilStates[ilCurrentPos-1].ilTgaAuthName);
+		ilStates[ilCurrentPos].ilTgaAuthComment = iDupString(ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		ilStates[ilCurrentPos].ilPngAuthName = iDupString(ilStates[ilCurrentPos-1].ilPngAuthName);
+		ilStates[ilCurrentPos].ilPngTitle = iDupString(ilStates[ilCurrentPos-1].ilPngTitle);
+		ilStates[ilCurrentPos].ilPngDescription = iDupString(ilStates[ilCurrentPos-1].ilPngDescription);
 
 		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
+		ilStates[ilCurrentPos].ilTifDescription = iDupString(ilStates[ilCurrentPos-1].ilTifDescription);
+		ilStates[ilCurrentPos].ilTifHostComputer = iDupString(ilStates[ilCurrentPos-1].ilTifHostComputer);
+		ilStates[ilCurrentPos].ilTifDocumentName = iDupString(ilStates[ilCurrentPos-1].ilTifDocumentName);
+		ilStates[ilCurrentPos].ilTifAuthName = iDupString(ilStates[ilCurrentPos-1].ilTifAuthName);
 
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		ilStates[ilCurrentPos].ilCHeader = iDupString(ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
-- 
2.43.0


From de00902b03851aa253ca72d2bf3f0cb269fbb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 011/121] fix: IL_FORMAT_SPECIFIC_BIT covers the progressive
 JPEG and VTF compression states

---
 DevIL/src-IL/src/il_states.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 1089a35..75a92b0 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -833,6 +833,8 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
 
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 
 		// Strings
 		if (ilStates[ilCurrentPos].ilTgaId)
-- 
2.43.0


From 393c8b6aebad8d7d9fcb727d326cfda176d54a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 012/121] fix: ilGetInteger(IL_ACTIVE_FACE) was refused

---
 DevIL/src-IL/src/il_states.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 75a92b0..458b323 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -474,6 +474,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
-- 
2.43.0


From 747c8ca12fd816231fe3f14e83815d9577e69fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 013/121] fix: IL_PALETTE_BASE_TYPE was always IL_BGRA

---
 DevIL/src-IL/src/il_states.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 458b323..0af27d5 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -665,16 +665,22 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
+                      break;
              }
              break;
         default:
-- 
2.43.0


From 1add35091e2656b84a70a447d8e6e273a0b5df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 014/121] fix: ilSetInteger range checks of DXTC format, PCD
 picture and PNG alpha index

The checks accepted every value.
---
 DevIL/src-IL/src/il_states.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 0af27d5..33f2a64 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1127,7 +1127,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1151,13 +1151,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
-- 
2.43.0


From 25844ba6a050f75142608aecbb5c4d6861435ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 015/121] fix: ilSetInteger(IL_IMAGE_CUBEFLAGS) raised an error
 though it succeeded

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 33f2a64..778fde6 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1117,7 +1117,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
-- 
2.43.0


From ee8baf76726110a0af34f8fa65604917a7e83dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 016/121] fix: iGetInt does not put IL_NO_ERROR on the error
 stack

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 778fde6..d237e71 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1212,7 +1212,7 @@ ILint iGetInt(ILenum Mode)
 	err = ilGetError();
 	if (r == -1 && err == IL_INVALID_ENUM)
 		ilSetError(IL_INTERNAL_ERROR);
-	else
+	else if (err != IL_NO_ERROR)
 		ilSetError(err); //restore error
 
 	return r;
-- 
2.43.0


From 253cb5043c34b999e5cce1d9b4d2c4f434b36991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 017/121] fix: ilInit after ilShutDown starts with an empty
 attribute stack

---
 DevIL/src-IL/src/il_states.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index d237e71..fd19da7 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -45,6 +45,7 @@ static void iDefaultCurStates();
 
 void ilDefaultStates()
 {
+	ilCurrentPos = 0;  // Nothing has been pushed.
 	iDefaultCurStates();
 
 	ilHints.MemVsSpeedHint = IL_FASTEST;
-- 
2.43.0


From e813e40b4b035444a8601a38804afde798aeef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 018/121] fix: ilSetInteger(IL_DXTC_FORMAT) also accepts 3Dc,
 RXGB and ATI1N, which can be written

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index fd19da7..f532d5e 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1128,7 +1128,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || (Param >= IL_3DC && Param <= IL_DXT1A)) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
-- 
2.43.0


From d78200c386d4fffd5d8c993814df3ff0970e9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 019/121] fix: ilTexImage with an invalid type leaves the image
 alone

The data, palette and sub-images were freed before the type was checked, and the
image kept pointing at them.
---
 DevIL/src-IL/src/il_devil.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..fed7419 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -137,6 +137,11 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 		return IL_FALSE;
 	}
 
+	if (ilGetBpcType(Type) == 0) {  // Before anything is freed.
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
@@ -200,6 +205,11 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 		return IL_FALSE;
 	}
 
+	if (ilGetBpcType(Type) == 0) {  // Before anything is freed.
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
-- 
2.43.0


From 918564dd7181ad287b159ab86d1478f540834c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 020/121] fix: ilCloneCurImage keeps the name of the current
 image

The current image stayed the original, but the current name became that of the
clone, so that deleting or querying acted on the wrong image.  A clone that runs
out of memory is deleted again.
---
 DevIL/src-IL/src/il_devil.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index fed7419..4fadf68 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1100,7 +1100,7 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id = 0, Name;
 	ILimage *CurImage;
 	
 	if (iCurImage == NULL) {
@@ -1113,11 +1113,17 @@ ILuint ILAPIENTRY ilCloneCurImage()
 		return 0;
 	
 	CurImage = iCurImage;
+	Name = ilGetCurName();
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	if (!ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
+		|| !ilCopyImageAttr(iCurImage, CurImage)) {
+		ilBindImage(Name);
+		ilDeleteImages(1, &Id);
+		Id = 0;
+	}
 	
+	ilBindImage(Name);
 	iCurImage = CurImage;
 	
 	return Id;
-- 
2.43.0


From f840e45b290f8beb7a884f4683c0a7068a670008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 021/121] fix: ilCopyImage onto itself or onto a sub-image used
 freed memory

Also reports running out of memory.
---
 DevIL/src-IL/src/il_devil.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 4fadf68..64ff0d3 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1065,12 +1065,16 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 	}
 	
 	ilBindImage(Src);
+	if (ilGetCurName() != Src)  // There is no memory for a new image.
+		return IL_FALSE;
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
-	
-	return IL_TRUE;
+	iCurImage = DestImage;  // May be a sub-image.
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+	if (!ilTexImage_(DestImage, SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
+		return IL_FALSE;
+	return ilCopyImageAttr(DestImage, SrcImage);
 }
 
 
-- 
2.43.0


From 80f7ca6944c2e26fe18780ddba7a9738711f7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 022/121] fix: ilCopyImageAttr leaked the animation list of the
 destination

---
 DevIL/src-IL/src/il_devil.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 64ff0d3..d00b80f 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1004,6 +1004,12 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		Dest->DxtcSize = 0;
 	}
 	
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+		Dest->AnimSize = 0;
+	}
+
 	if (Src->AnimList && Src->AnimSize) {
 		Dest->AnimList = (ILuint*)ialloc(Src->AnimSize * sizeof(ILuint));
 		if (Dest->AnimList == NULL) {
-- 
2.43.0


From 8937c8bbb118e4315e54e3cf9dfd277016616299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 023/121] fix: clear colour of luminance images

Luminance was set to the clear alpha; luminance-alpha bytes fell through to the
colour-index case and float luminance-alpha wrote alpha to the wrong channel.
---
 DevIL/src-IL/src/il_devil.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index d00b80f..f443543 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -395,12 +395,13 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					break;
 					
 				case IL_COLOUR_INDEX:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
@@ -445,7 +446,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
+					ShortPtr[0] = (ILushort)(ClearLum * USHRT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
@@ -496,7 +497,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
@@ -546,12 +547,12 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[0] = ClearLum;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[1] = ClearAlpha;
 					break;
 					
 				case IL_COLOUR_INDEX:
@@ -596,7 +597,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					DblPtr[0] = ClearAlpha;
+					DblPtr[0] = ClearLum;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
-- 
2.43.0


From f443a87e60eeaa7f6e56e52da0939b210f2caa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 024/121] fix: clear colour of integer images

1.0f * UINT_MAX is 2^32 in single precision, which does not fit an unsigned int.
---
 DevIL/src-IL/src/il_devil.cpp | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index f443543..59a55fc 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -470,43 +470,43 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 			switch (Format)
 			{
 				case IL_RGB:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
 					break;
 					
 				case IL_RGBA:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_BGR:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_BGRA:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearLum * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearLum * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_COLOUR_INDEX:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				default:
-- 
2.43.0


From 6067fc68b6c4e13df4dddadc6bc10a6f79f4e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 025/121] fix: clearing an alpha-only image filled it with
 uninitialised memory

---
 DevIL/src-IL/src/il_devil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 59a55fc..baf75c5 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -403,6 +403,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
@@ -454,6 +455,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[1] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
@@ -505,6 +507,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					IntPtr[1] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					IntPtr[0] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
@@ -555,6 +558,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[1] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					FloatPtr[0] = ClearAlpha;
 					break;
@@ -605,6 +609,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[1] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					DblPtr[0] = ClearAlpha;
 					break;
-- 
2.43.0


From 183aa711c59171e9463ec9b68c6686f4e4a604e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 026/121] fix: clearing a colour-index image gave it a palette
 of uninitialised memory

---
 DevIL/src-IL/src/il_devil.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index baf75c5..7026125 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -719,10 +719,11 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		ilGetClear(Colours, IL_RGBA, IL_UNSIGNED_BYTE);
+		Image->Pal.Palette[0] = Colours[0];
+		Image->Pal.Palette[1] = Colours[1];
+		Image->Pal.Palette[2] = Colours[2];
+		Image->Pal.Palette[3] = Colours[3];
 	}
 	
 	return IL_TRUE;
-- 
2.43.0


From 64d49301805e0f293ed74b6aed77857a98a1bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 027/121] fix: ilBlit clips to both images and handles all
 channel types

Negative destination offsets wrote in front of the image, source rectangles beyond
the source read behind it, channels wider than a byte were addressed as bytes, and
the alpha used for blending was taken from the last colour channel when the
destination has no alpha.  A current sub-image stays current.
---
 DevIL/src-IL/src/il_devil.cpp | 141 +++++++++++++++++++++-------------
 1 file changed, 87 insertions(+), 54 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 7026125..c1c5ea8 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -744,6 +744,42 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
 }
 
+// Value of a channel, from 0 to 1.
+static ILdouble iGetNormChannel(const ILubyte *Data, ILenum Type)
+{
+	switch (Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			return *Data / (ILdouble)UCHAR_MAX;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			return *(const ILushort*)Data / (ILdouble)USHRT_MAX;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			return *(const ILuint*)Data / (ILdouble)UINT_MAX;
+		case IL_FLOAT:
+			return *(const ILfloat*)Data;
+		case IL_DOUBLE:
+			return *(const ILdouble*)Data;
+	}
+	return 1.0;
+}
+
+
+// Number of pixels along one axis that are inside of both images.
+static ILuint iBlitExtent(ILuint Extent, ILint DestPos, ILuint DestSize, ILuint SrcPos, ILuint SrcSize)
+{
+	long long Max = (long long)DestSize - DestPos;
+
+	if (Max > (long long)SrcSize - SrcPos)
+		Max = (long long)SrcSize - SrcPos;
+	if (Max < 0)
+		return 0;
+	return Extent < Max ? Extent : (ILuint)Max;
+}
+
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
@@ -757,7 +793,9 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	ILuint		StartX, StartY, StartZ;
 	ILboolean	DestFlipped = IL_FALSE;
 	ILubyte 	*SrcTemp;
-	ILfloat		Back;
+	ILdouble	Front, Back;
+	ILuint		DestBpp, SrcBpp, BlendBpp;
+	ILboolean	Blend;
 
 	// Check if the desiination image really exists
 	if (DestName == 0 || iCurImage == NULL) {
@@ -791,6 +829,7 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 		if (SrcTemp == NULL)
 		{
 			ilBindImage(DestName);
+			ilSetCurImage(Dest);
 			if (DestFlipped)
 				ilFlipImage();
 			return IL_FALSE;
@@ -803,81 +842,74 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	
 	// convert source image to match the destination image type and format
 	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
-	if (Converted == NULL)
+	if (Converted == NULL) {
+		if (SrcTemp != iCurImage->Data)
+			ifree(SrcTemp);
+		ilBindImage(DestName);
+		ilSetCurImage(Dest);
+		if (DestFlipped)
+			ilFlipImage();
 		return IL_FALSE;
+	}
 	
-	ConvBps 	  = Dest->Bpp * Src->Width;
-	ConvSizePlane = ConvBps   * Src->Height;
+	DestBpp       = Dest->Bpp * Dest->Bpc;
+	SrcBpp        = Src->Bpp * Src->Bpc;
+	ConvBps 	  = DestBpp * Src->Width;
+	ConvSizePlane = ConvBps * Src->Height;
 	
 	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
+	StartX = DestX >= 0 ? 0 : 0u - (ILuint)DestX;
+	StartY = DestY >= 0 ? 0 : 0u - (ILuint)DestY;
+	StartZ = DestZ >= 0 ? 0 : 0u - (ILuint)DestZ;
 	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
+	// Limit the copy of data inside of the destination and the source image
+	Width  = iBlitExtent(Width,  DestX, Dest->Width,  SrcX, Src->Width);
+	Height = iBlitExtent(Height, DestY, Dest->Height, SrcY, Src->Height);
+	Depth  = iBlitExtent(Depth,  DestZ, Dest->Depth,  SrcZ, Src->Depth);
 	
-	//@TODO: non funziona con rgba
-	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
-		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
+	Blend = ilIsEnabled(IL_BLIT_BLEND) &&
+		(Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA);
+	// The alpha of the destination is kept.
+	BlendBpp = Dest->Bpp;
+	if (Dest->Format == IL_RGBA || Dest->Format == IL_BGRA || Dest->Format == IL_LUMINANCE_ALPHA)
+		BlendBpp--;
+
+	for (z = StartZ; z < Depth; z++) {
+		for (y = StartY; y < Height; y++) {
+			for (x = StartX; x < Width; x++) {
+				const ILubyte *From = Converted + (size_t)(z+SrcZ)*ConvSizePlane + (size_t)(y+SrcY)*ConvBps + (size_t)(x+SrcX)*DestBpp;
+				ILubyte *To = Dest->Data + (size_t)(z+DestZ)*Dest->SizeOfPlane + (size_t)(y+DestY)*Dest->Bps + (size_t)(x+DestX)*DestBpp;
+				
+				if (!Blend) {
+					memcpy(To, From, DestBpp);
+					continue;
+				}
+				
+				Front = iGetNormChannel(SrcTemp + (size_t)(z+SrcZ)*Src->SizeOfPlane + (size_t)(y+SrcY)*Src->Bps
+					+ (size_t)(x+SrcX)*SrcBpp + SrcBpp - Src->Bpc, Src->Type);
+				Back = 1.0 - Front;
+				for (c = 0; c < BlendBpp; c++) {
 					switch (Dest->Type)
 					{
 						case IL_BYTE:
 						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
+							To[c] = (ILubyte)(From[c] * Front + To[c] * Back);
 							break;
 						case IL_SHORT:
 						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
+							((ILushort*)To)[c] = (ILushort)(((ILushort*)From)[c] * Front + ((ILushort*)To)[c] * Back);
 							break;
 						case IL_INT:
 						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
+							((ILuint*)To)[c] = (ILuint)(((ILuint*)From)[c] * Front + ((ILuint*)To)[c] * Back);
 							break;
 						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
+							((ILfloat*)To)[c] = (ILfloat)(((ILfloat*)From)[c] * Front + ((ILfloat*)To)[c] * Back);
 							break;
 						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
+							((ILdouble*)To)[c] = ((ILdouble*)From)[c] * Front + ((ILdouble*)To)[c] * Back;
 							break;
 					}
-					Back = 1.0f - Front;
-					// In case of Alpha channel, the data is blended. Keeps the original alpha.
-					if (ilIsEnabled(IL_BLIT_BLEND)) {
-						for (c = 0; c < bpp_without_alpha; c++)
-						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
-						}
-					}
-					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
-					}
-				}
-			}
-		}
-	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
 				}
 			}
 		}
@@ -887,6 +919,7 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 		ifree(SrcTemp);
 	
 	ilBindImage(DestName);
+	ilSetCurImage(Dest);
 	if (DestFlipped)
 		ilFlipImage();
 	
-- 
2.43.0


From 8f98cab7fe0fe8d47b31192c022fa18ff71e79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 028/121] fix: ilOverlayImage draws onto the current sub-image,
 not its base image

---
 DevIL/src-IL/src/il_devil.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c1c5ea8..1ee9cdf 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -735,11 +735,18 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 {
 	ILuint	Width, Height, Depth;
 	ILuint	Dest;
+	ILimage	*DestImage = iCurImage;
+	
+	if (DestImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	
 	Dest = ilGetCurName();
 	ilBindImage(Source);
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
+	ilSetCurImage(DestImage);  // May be a sub-image.
 
 	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
 }
-- 
2.43.0


From 1b2b4393bf50f28c81e7c638248a3062c92aace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 029/121] fix: ilSetPixels clips blocks with negative offsets
 correctly

A block that started before the image and reached its far edge lost its last
pixels, and blocks with a negative y or a z offset were written as single rows.
---
 DevIL/src-IL/src/il_manip.cpp | 59 +++++++++++------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..79adb22 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -584,6 +584,17 @@ failed:
 }
 
 
+// How much of a block that starts Skip pixels before Off is inside of the image.
+static ILint iClipExtent(ILuint Size, ILuint Off, ILuint Extent, ILuint Skip)
+{
+	if (Off >= Size || Skip >= Extent)
+		return 0;
+	if (Extent - Skip > Size - Off)
+		return Size - Off;
+	return Extent - Skip;
+}
+
+
 ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 {
 	ILuint	c, SkipX = 0, PixBpp;
@@ -605,14 +616,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 		XOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width) {
-		NewWidth = iCurImage->Width - XOff;
-	}
-	else {
-		NewWidth = Width;
-	}
-
-	NewWidth -= SkipX;
+	NewWidth = iClipExtent(iCurImage->Width, XOff, Width, SkipX);
 
 	for (x = 0; x < NewWidth; x++) {
 		for (c = 0; c < PixBpp; c++) {
@@ -654,20 +658,10 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 		YOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewWidth = iCurImage->Width - XOff;
-	else
-		NewWidth = Width;
+	NewWidth = iClipExtent(iCurImage->Width, XOff, Width, SkipX);
+	NewHeight = iClipExtent(iCurImage->Height, YOff, Height, SkipY);
 	NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	NewWidth -= SkipX;
-	NewHeight -= SkipY;
-
 	for (y = 0; y < NewHeight; y++) {
 		for (x = 0; x < NewWidth; x++) {
 			for (c = 0; c < PixBpp; c++) {
@@ -715,27 +709,12 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 		ZOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewW = iCurImage->Width - XOff;
-	else
-		NewW = Width;
+	NewW = iClipExtent(iCurImage->Width, XOff, Width, SkipX);
+	NewH = iClipExtent(iCurImage->Height, YOff, Height, SkipY);
+	NewD = iClipExtent(iCurImage->Depth, ZOff, Depth, SkipZ);
 	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
 	NewSizePlane = NewBps * Height;
 
-	NewW -= SkipX;
-	NewH -= SkipY;
-	NewD -= SkipZ;
-
 	for (z = 0; z < NewD; z++) {
 		for (y = 0; y < NewH; y++) {
 			for (x = 0; x < NewW; x++) {
@@ -778,10 +757,10 @@ void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, IL
 			return;
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		ilSetPixels1D(XOff, Width, Converted);
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		ilSetPixels2D(XOff, YOff, Width, Height, Converted);
 	}
 	else {
-- 
2.43.0


From aa878f08617a0fc4951d411de63776a4e8593087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 030/121] fix: ilSetPixels with IL_ORIGIN_SET turned the image
 upside down

The flipped data was stored without changing the origin.
---
 DevIL/src-IL/src/il_manip.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79adb22..692174e 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -627,6 +627,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 	if (TempData != iCurImage->Data) {
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
+		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);
 	}
 
 	return IL_TRUE;
@@ -674,6 +675,7 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 	if (TempData != iCurImage->Data) {
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
+		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);
 	}
 
 	return IL_TRUE;
@@ -729,6 +731,7 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 	if (TempData != iCurImage->Data) {
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
+		iCurImage->Origin = ilGetInteger(IL_ORIGIN_MODE);
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From d25432cb2d8523d6e184e65f426addd3e235093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 031/121] fix: ilCopyPixels stays inside of the image and lays
 out planes as requested

Offsets beyond the image read behind it, planes of clipped blocks were packed with
the clipped size, and rows at a z offset were read from the first plane.
---
 DevIL/src-IL/src/il_manip.cpp | 61 ++++++++++++-----------------------
 1 file changed, 20 insertions(+), 41 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 692174e..d03a39c 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -376,6 +376,17 @@ ILboolean ILAPIENTRY iMirror() {
 }
 
 
+// How much of a block that starts Skip pixels before Off is inside of the image.
+static ILint iClipExtent(ILuint Size, ILuint Off, ILuint Extent, ILuint Skip)
+{
+	if (Off >= Size || Skip >= Extent)
+		return 0;
+	if (Extent - Skip > Size - Off)
+		return Size - Off;
+	return Extent - Skip;
+}
+
+
 // Should we add type to the parameter list?
 // Copies a 1d block of pixels to the buffer pointed to by Data.
 ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
@@ -393,12 +404,7 @@ ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width) {
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	}
-	else {
-		NewBps = Width * PixBpp;
-	}
+	NewBps = iClipExtent(iCurImage->Width, XOff, Width, 0) * PixBpp;
 	NewOff = XOff * PixBpp;
 
 	for (x = 0; x < NewBps; x += PixBpp) {
@@ -430,15 +436,9 @@ ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height,
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	else
-		NewBps = Width * PixBpp;
+	NewBps = iClipExtent(iCurImage->Width, XOff, Width, 0) * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
+	NewHeight = iClipExtent(iCurImage->Height, YOff, Height, 0);
 
 	DataBps = Width * PixBpp;
 	NewXOff = XOff * PixBpp;
@@ -475,23 +475,13 @@ ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, IL
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
-		NewBps = (iCurImage->Width - XOff) * PixBpp;
-	else
-		NewBps = Width * PixBpp;
+	NewBps = iClipExtent(iCurImage->Width, XOff, Width, 0) * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
+	NewH = iClipExtent(iCurImage->Height, YOff, Height, 0);
+	NewD = iClipExtent(iCurImage->Depth, ZOff, Depth, 0);
 
 	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
+	NewSizePlane = DataBps * Height;
 
 	NewXOff = XOff * PixBpp;
 
@@ -544,12 +534,12 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		}
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels1D(XOff, Width, TempBuff)) {
 			goto failed;
 		}
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels2D(XOff, YOff, Width, Height, TempBuff)) {
 			goto failed;
 		}
@@ -584,17 +574,6 @@ failed:
 }
 
 
-// How much of a block that starts Skip pixels before Off is inside of the image.
-static ILint iClipExtent(ILuint Size, ILuint Off, ILuint Extent, ILuint Skip)
-{
-	if (Off >= Size || Skip >= Extent)
-		return 0;
-	if (Extent - Skip > Size - Off)
-		return Size - Off;
-	return Extent - Skip;
-}
-
-
 ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 {
 	ILuint	c, SkipX = 0, PixBpp;
-- 
2.43.0


From 0917b20474e2b58aa6fc5758e030a063d7bf599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 032/121] fix: ilGetAlpha returned NaN as opaque floating point
 alpha and leaked an image

---
 DevIL/src-IL/src/il_manip.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index d03a39c..e3eb9cf 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -867,6 +867,12 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_LUMINANCE:
 		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
 			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
+			if (Type == IL_FLOAT)
+				for (i = 0; i < Size / TempImage->Bpp; i++)
+					((ILfloat*)Alpha)[i] = 1.0f;
+			else if (Type == IL_DOUBLE)
+				for (i = 0; i < Size / TempImage->Bpp; i++)
+					((ILdouble*)Alpha)[i] = 1.0;
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return Alpha;
@@ -875,6 +881,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
-- 
2.43.0


From 3b162e48d4c111822988540e63dfdd8c90249499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 033/121] fix: ilSetAlpha of integer and alpha-only images

32-bit alpha was cut to 16 bits, and alpha-only images were turned into RGBA.
---
 DevIL/src-IL/src/il_manip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index e3eb9cf..7a29a97 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -961,6 +961,7 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 			break;
 		case IL_ALPHA:
 			AlphaOff = 1;
+			break;
 		case IL_COLOUR_INDEX: //@TODO use palette with alpha
 			ret = ilConvertImage(IL_RGBA, Image->Type);
 			AlphaOff = 4;
@@ -990,7 +991,7 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 		}
 		case IL_INT:
 		case IL_UNSIGNED_INT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
+			const ILuint alpha = (ILuint)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
 				((ILuint*)Image->Data)[i] = alpha;
 			break;
-- 
2.43.0


From 9c8b12b7c85adf09210bac56d3ddf2421789c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 034/121] fix: ilModAlpha did nothing to images that already
 have an alpha channel

---
 DevIL/src-IL/src/il_manip.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 7a29a97..a1dfe0c 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -1051,6 +1051,19 @@ void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
                 ret = ilConvertImage(IL_RGBA,iCurImage->Type);
                 AlphaOff = 4;
                 break;
+            case IL_RGBA:
+            case IL_BGRA:
+                ret = IL_TRUE;
+                AlphaOff = 4;
+                break;
+            case IL_LUMINANCE_ALPHA:
+                ret = IL_TRUE;
+                AlphaOff = 2;
+                break;
+            case IL_ALPHA:
+                ret = IL_TRUE;
+                AlphaOff = 1;
+                break;
     }    
     Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * iCurImage->Bpp;
     
-- 
2.43.0


From 876c0c5907760f544a4aa5eeef0d5f3a5ba03eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 035/121] fix: registering the extension of the first handler
 again added a duplicate

---
 DevIL/src-IL/src/il_register.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..2159bc9 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -27,13 +27,13 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	iFormatL *TempNode, *NewNode;
 
 	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatL*)ialloc(sizeof(iFormatL));
@@ -61,13 +61,13 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 	iFormatS *TempNode, *NewNode;
 
 	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
-- 
2.43.0


From 2b90a3b7b77213d0fd321d5a163d39ed57e676ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 036/121] fix: ilRegisterMipNum links the mipmaps as mipmaps

---
 DevIL/src-IL/src/il_register.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 2159bc9..b86ea95 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -320,18 +320,18 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 	Num--;
 
 	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
+		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
 			Prev = iCurImage->Mipmaps;
 			while (Prev) {
-				Next = Prev->Next;
+				Next = Prev->Mipmaps;
 				ilCloseImage(Prev);
 				Prev = Next;
 			}
 			return IL_FALSE;
 		}
-		Next = Next->Next;
+		Next = Next->Mipmaps;
 		Num--;
 	}
 
-- 
2.43.0


From 00ba3643de366316b9229f4633be505603a54bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 037/121] fix: ilRegisterNum* left dangling sub-images when out
 of memory

---
 DevIL/src-IL/src/il_register.cpp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index b86ea95..c39f076 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -267,7 +267,7 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
@@ -286,12 +286,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -304,7 +300,7 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
@@ -323,12 +319,8 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Mipmaps;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Mipmaps;
@@ -341,7 +333,7 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
@@ -360,12 +352,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
-- 
2.43.0


From 156b64d224c5c7c70ea4b596067aa4c73203e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 038/121] fix: the ilRegister* functions crashed without a
 current image

---
 DevIL/src-IL/src/il_register.cpp | 35 ++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index c39f076..f30fbf3 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -232,6 +232,11 @@ ILboolean iRegisterSave(ILconst_string FileName)
 
 void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Origin)
 	{
 		case IL_ORIGIN_LOWER_LEFT:
@@ -247,6 +252,11 @@ void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 
 void ILAPIENTRY ilRegisterFormat(ILenum Format)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Format)
 	{
 		case IL_COLOUR_INDEX:
@@ -269,6 +279,11 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
 	ILimage *Next;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
 
@@ -302,6 +317,11 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
 	ILimage *Next;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
 
@@ -335,6 +355,11 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
 	ILimage *Next;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
 
@@ -366,6 +391,11 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 
 void ILAPIENTRY ilRegisterType(ILenum Type)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Type)
 	{
 		case IL_BYTE:
@@ -388,6 +418,11 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
 		ifree(iCurImage->Pal.Palette);
 	}
-- 
2.43.0


From 4dc00fe46f4fa71ce37bf949d7c681b68267335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 039/121] fix: ilRegisterPal keeps the palette of the image
 when it fails

---
 DevIL/src-IL/src/il_register.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index f30fbf3..4777759 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -423,23 +423,29 @@ void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 		return;
 	}
 
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
+	ILubyte *Palette;
+
+	if (Pal == NULL || Size == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return;
 	}
+	if (ilGetBppPal(Type) == 0) {
+		ilSetError(IL_INVALID_ENUM);
+		return;
+	}
+
+	// Keep the old palette if the new one cannot be stored.
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL)
+		return;
+	memcpy(Palette, Pal, Size);
 
+	if (iCurImage->Pal.Palette != NULL)
+		ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = Size;
 	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
-		return;
+	iCurImage->Pal.Palette = Palette;
 
-	if (Pal != NULL) {
-		memcpy(iCurImage->Pal.Palette, Pal, Size);
-	}
-	else {
-		ilSetError(IL_INVALID_PARAM);
-	}
-	
 	return;
 }
 
-- 
2.43.0


From eca8f05ea6be8670760710c212ce99cf1b327797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 040/121] fix: images whose size does not fit 32 bits got a
 buffer that was too small

---
 DevIL/src-IL/src/il_devil.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 1ee9cdf..47cb06a 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -16,10 +16,28 @@
 #include <limits.h>
 
 
+// The size of the data has to fit into an ILuint (SizeOfData).
+static ILboolean iSizeTooLarge(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
+{
+	const unsigned long long Max = 0xFFFFFFFFull;
+	unsigned long long Size = (unsigned long long)Width * Bpp * Bpc;
+
+	if (Size > Max)
+		return IL_TRUE;
+	if (Height != 0)
+		Size *= Height;
+	if (Size > Max)
+		return IL_TRUE;
+	if (Depth != 0)
+		Size *= Depth;
+	return Size > Max;
+}
+
+
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0) {
+	if (BpcType == 0 || iSizeTooLarge(Width, Height, Depth, Bpp, BpcType)) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -137,7 +155,7 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 		return IL_FALSE;
 	}
 
-	if (ilGetBpcType(Type) == 0) {  // Before anything is freed.
+	if (ilGetBpcType(Type) == 0 || iSizeTooLarge(Width, Height, Depth, Bpp, ilGetBpcType(Type))) {  // Before anything is freed.
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -205,7 +223,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 		return IL_FALSE;
 	}
 
-	if (ilGetBpcType(Type) == 0) {  // Before anything is freed.
+	if (ilGetBpcType(Type) == 0 || iSizeTooLarge(Width, Height, Depth, Bpp, ilGetBpcType(Type))) {  // Before anything is freed.
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -1195,6 +1213,11 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 		return IL_FALSE;
 	}
 	
+	if (iSizeTooLarge(Width, Height, Depth, Bpp, Bpc)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	if (Image->Data != NULL)
 		ifree(Image->Data);
 	
-- 
2.43.0


From b20cbc9366eb228d24944406420269790f6ac533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 041/121] fix: iConvertPalette uses the palette of the image it
 converts, keeps alpha and depth, stays inside the palette

---
 DevIL/src-IL/src/il_convert.cpp | 71 ++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..7a6fe62 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -24,44 +24,53 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	ILubyte		*Temp = NULL;
 	ILboolean	Converted;
 	ILboolean	HasAlpha;
+	ILuint		NumEntries;
 
 	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 	if (NewImage == NULL) {
 		return IL_FALSE;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
+	CurImage = iCurImage;
+	if (!ilCopyImageAttr(NewImage, Image))
+		goto alloc_error;
 
-	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
+	if (!Image->Pal.Palette || !Image->Pal.PalSize || ilGetBppPal(Image->Pal.PalType) == 0 || Image->Bpp != 1) {
 		ilCloseImage(NewImage);
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
+	// An index may refer to an entry beyond the end of the palette.
+	NumEntries = Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType) + 1;
+	if (NumEntries < 256)
+		NumEntries = 256;
+
 	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
 		if (NewImage->Pal.Palette)
 			ifree(NewImage->Pal.Palette);
+		NewImage->Pal.Palette = NULL;
 		if (DestFormat == IL_LUMINANCE_ALPHA)
 			LumBpp = 2;
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			case IL_PAL_RGB24:
 			case IL_PAL_RGB32:
 			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)icalloc(NumEntries, LumBpp);
 				if (Temp == NULL)
 					goto alloc_error;
 
 				Size = ilGetBppPal(Image->Pal.PalType);
 				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
 					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
+					for (c = 0; c < 3; c++) {
 						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_RGBA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -73,19 +82,19 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			case IL_PAL_BGR24:
 			case IL_PAL_BGR32:
 			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)icalloc(NumEntries, LumBpp);
 				if (Temp == NULL)
 					goto alloc_error;
 
 				Size = ilGetBppPal(Image->Pal.PalType);
 				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
 					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
+					for (c = 0; c < 3; c++, j--) {
 						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_BGRA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -101,7 +110,8 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
 		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
@@ -125,8 +135,9 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	else if (DestFormat == IL_ALPHA) {
 		if (NewImage->Pal.Palette)
 			ifree(NewImage->Pal.Palette);
+		NewImage->Pal.Palette = NULL;
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			// Opaque, so all the values are 0xFF.
 			case IL_PAL_RGB24:
@@ -139,7 +150,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			case IL_PAL_BGRA32:
 			case IL_PAL_RGBA32:
 				HasAlpha = IL_TRUE;
-				Temp = (ILubyte*)ialloc(1 * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
+				Temp = (ILubyte*)icalloc(NumEntries, 1);
 				if (Temp == NULL)
 					goto alloc_error;
 
@@ -157,15 +168,15 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
 		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
 
 		if (HasAlpha) {
 			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
+				NewImage->Data[i] = Temp[Image->Data[i]];
 			}
 		}
 		else {  // No alpha, opaque.
@@ -179,7 +190,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return NewImage;
 	}
 
-	//NewImage->Format = ilGetPalBaseType(iCurImage->Pal.PalType);
+	//NewImage->Format = ilGetPalBaseType(Image->Pal.PalType);
 	NewImage->Format = DestFormat;
 
 	if (ilGetBppFormat(NewImage->Format) == 0) {
@@ -188,7 +199,6 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return NULL;
 	}
 
-	CurImage = iCurImage;
 	ilSetCurImage(NewImage);
 
 	switch (DestFormat)
@@ -202,36 +212,33 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			break;
 
 		case IL_RGBA:
-			Converted = ilConvertPal(IL_PAL_RGB32);
+			Converted = ilConvertPal(IL_PAL_RGBA32);
 			break;
 
 		case IL_BGRA:
-			Converted = ilConvertPal(IL_PAL_BGR32);
+			Converted = ilConvertPal(IL_PAL_BGRA32);
 			break;
 
 		case IL_COLOUR_INDEX:
 			// Just copy the original image over.
-			NewImage->Data = (ILubyte*)ialloc(CurImage->SizeOfData);
+			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
 			if (NewImage->Data == NULL)
 				goto alloc_error;
-			NewImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (NewImage->Pal.Palette == NULL)
-				goto alloc_error;
-			memcpy(NewImage->Data, CurImage->Data, CurImage->SizeOfData);
-			memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
-			NewImage->Pal.PalSize = Image->Pal.PalSize;
-			NewImage->Pal.PalType = Image->Pal.PalType;
+			// The palette has been copied by ilCopyImageAttr.
+			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 			ilSetCurImage(CurImage);
 			return NewImage;
 
 		default:
+			ilSetCurImage(CurImage);
 			ilCloseImage(NewImage);
 			ilSetError(IL_INVALID_CONVERSION);
 			return NULL;
 	}
 
 	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
+	if (Converted)
+		Converted = ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
 
 	// ilConvertPal already sets the error message - no need to confuse the user.
 	if (!Converted) {
@@ -243,7 +250,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
 		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+			NewImage->Data[i * NewImage->Bpp + c] = (Image->Data[i] + 1) * Size > NewImage->Pal.PalSize ? 0 : NewImage->Pal.Palette[Image->Data[i] * Size + c];
 		}
 	}
 
@@ -258,10 +265,8 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 
 alloc_error:
 	ifree(Temp);
-	if (NewImage)
-		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
+	ilSetCurImage(CurImage);
+	ilCloseImage(NewImage);
 	return NULL;
 }
 
-- 
2.43.0


From 0d8b00e428ebfe74991448a55a5b1f24b88a4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 042/121] fix: converting an indexed image to a wider type does
 not leave it a palette

---
 DevIL/src-IL/src/il_convert.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 7a6fe62..3f25490 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -307,13 +307,12 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 
 		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
-- 
2.43.0


From fa822852ff8c9347bb3cc6036cae1f9b01e62ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 043/121] fix: conversion to or from colour indices of other
 types stays inside the image data

---
 DevIL/src-IL/src/il_convert.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 3f25490..f072247 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -295,6 +295,11 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		return NULL;
 	}
 
+	if (ilGetBpcType(DestType) == 0 || (Image->Format == IL_COLOUR_INDEX && Image->Bpc != 1)) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return NULL;
+	}
+
 	if (Image->Format == IL_COLOUR_INDEX) {
 		NewImage = iConvertPalette(Image, DestFormat);
 
@@ -349,25 +354,30 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 
 		if (DestFormat == IL_COLOUR_INDEX && Image->Format == IL_LUMINANCE) {
+			if (NewImage->Pal.Palette)
+				ifree(NewImage->Pal.Palette);
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
 				NewImage->Pal.Palette[i * 3 + 2] = i;
 			}
-			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, IL_LUMINANCE, IL_LUMINANCE, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
 				ilCloseImage(NewImage);
 				return NULL;
 			}
-			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 		}
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
-				ifree(NewImage);  // ilCloseImage not needed.
+				ilCloseImage(NewImage);
 				return NULL;
 			}
 		}
-- 
2.43.0


From 9e5b0dacc291be528c27dd45e43574a791979a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 044/121] fix: ilConvertImage converts the following images too
 when only the colour order changes

---
 DevIL/src-IL/src/il_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index f072247..206f2f5 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -406,7 +406,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 	if (DestFormat == iCurImage->Format && DestType == iCurImage->Type)
 		return IL_TRUE;  // No conversion needed.
 
-	if (DestType == iCurImage->Type) {
+	if (DestType == iCurImage->Type && iCurImage->Next == NULL) {
 		if (iFastConvert(DestFormat)) {
 			iCurImage->Format = DestFormat;
 			return IL_TRUE;
-- 
2.43.0


From 5324cc350e7e5c4280a6a0a454fecbcc7d0450aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 045/121] fix: ilSwapColours handles a missing image, all
 slices and luminance with alpha

---
 DevIL/src-IL/src/il_convert.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 206f2f5..c2599d3 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -457,13 +457,20 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
 {
-	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height;
-	ILbyte		PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
+	ILuint		i = 0, Size;
+	ILbyte		PalBpp;
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, Temp;
 	ILdouble	*DoublePtr, DoubleTemp;
 
-	if ((iCurImage->Bpp != 1 && iCurImage->Bpp != 3 && iCurImage->Bpp != 4)) {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height * iCurImage->Depth;
+	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
+
+	if (iCurImage->Bpp < 1 || iCurImage->Bpp > 4) {
 		ilSetError(IL_INVALID_VALUE);
 		return IL_FALSE;
 	}
-- 
2.43.0


From 9f32298f5c594d33df4c13e3ada217fb145f19d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 046/121] fix: adding and removing alpha covers every slice and
 stays inside the data

---
 DevIL/src-IL/src/il_convert.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index c2599d3..2958a6a 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -596,10 +596,10 @@ ILboolean ilAddAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height / iCurImage->Bpc;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp + 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -727,11 +727,11 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			KeyColour[2] = KeyBlue;
 		}
 
-		Size = Image->Bps * Image->Height / Image->Bpc;
+		Size = Image->SizeOfData / Image->Bpc;
 
 		NewBpp = (ILubyte)(Image->Bpp + 1);
 		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height);
+		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
 		if (NewData == NULL) {
 			return IL_FALSE;
 		}
@@ -923,10 +923,10 @@ ILboolean ilRemoveAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height;
+	Size = iCurImage->SizeOfData / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp - 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
-- 
2.43.0


From 055bf2aa5489eeed02034e7f0196a39d25ca0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 047/121] fix: ilKeyColour sets the key colour

---
 DevIL/src-IL/src/il_convert.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 2958a6a..8ef14c0 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -682,12 +682,11 @@ ILboolean ilAddAlpha()
 }
 
 
-//ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
+static ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
 
 void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        KeyRed		= Red;
+	KeyRed		= Red;
 	KeyGreen	= Green;
 	KeyBlue		= Blue;
 	KeyAlpha	= Alpha;
@@ -699,8 +698,7 @@ void ILAPIENTRY ilKeyColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclamp
 //	making the image transparent where Key is equal to the pixel.
 ILboolean ilAddAlphaKey(ILimage *Image)
 {
-	ILfloat KeyRed = 0, KeyGreen = 0, KeyBlue = 0, KeyAlpha = 0;
-        ILubyte		*NewData, NewBpp;
+	ILubyte		*NewData, NewBpp;
 	ILfloat		KeyColour[3];
 	ILuint		i = 0, j = 0, c, Size;
 	ILboolean	Same;
-- 
2.43.0


From 6ea6cef0fb38148fb68dec0997ee926529aa303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 048/121] fix: converting an indexed image with a key colour
 terminates and stays inside the palette

---
 DevIL/src-IL/src/il_convert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 8ef14c0..bd8a270 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -859,13 +859,13 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			return IL_FALSE;
 		}
 
-		Size = ilGetInteger(IL_PALETTE_NUM_COLS);
+		Size = ilGetBppPal(Image->Pal.PalType) == 0 ? 0 : Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType);
 		if (Size == 0) {
 			ilSetError(IL_INTERNAL_ERROR);
 			return IL_FALSE;
 		}
 
-		if ((ILuint)(KeyAlpha * UCHAR_MAX) > Size) {
+		if ((ILuint)(KeyAlpha * UCHAR_MAX) >= Size) {
 			ilSetError(IL_INVALID_VALUE);
 			return IL_FALSE;
 		}
@@ -894,10 +894,12 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 
 		// @TODO: Check if this is the required behaviour.
 
+		ilDisable(IL_USE_KEY_COLOUR);  // It has been applied.
 		if (Image->Pal.PalType == IL_PAL_RGBA32)
 			ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE);
 		else
 			ilConvertImage(IL_BGRA, IL_UNSIGNED_BYTE);
+		ilEnable(IL_USE_KEY_COLOUR);
 	}
 
 	return IL_TRUE;
-- 
2.43.0


From fdfe65eca2584a9af55dcd785b9162849b46a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 049/121] fix: ilConvertPal neither leaks nor loses the palette
 on failure

---
 DevIL/src-IL/src/il_pal.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..bede3c8 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -697,6 +697,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -819,6 +820,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -826,6 +828,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 
 		default:
+			ifree(NewPal);
 			ilSetError(IL_INVALID_PARAM);
 			return NULL;
 	}
@@ -858,14 +861,7 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 	ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = Pal->PalSize;
 	iCurImage->Pal.PalType = Pal->PalType;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
+	iCurImage->Pal.Palette = Pal->Palette;
 	ifree(Pal);
 	
 	return IL_TRUE;
-- 
2.43.0


From a632e8d883dd9763e2a68f8bee65dfe1e64c187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 050/121] fix: ilRegisterPal rejects a palette with an
 incomplete entry

---
 DevIL/src-IL/src/il_register.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 4777759..54e0a55 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -433,6 +433,10 @@ void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 		ilSetError(IL_INVALID_ENUM);
 		return;
 	}
+	if (Size % ilGetBppPal(Type) != 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return;
+	}
 
 	// Keep the old palette if the new one cannot be stored.
 	Palette = (ILubyte*)ialloc(Size);
-- 
2.43.0


From d1eab4c202f5440e28b690f0d4dd1d8d58203219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 051/121] fix: conversion from RGB and luminance-alpha to alpha
 stays inside the data

---
 DevIL/src-IL/src/il_convbuff.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..a7dd706 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -414,7 +414,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					memset(NewData, 0, NumPix * BpcDest / 3);
 					break;
 
 				default:
@@ -1744,30 +1744,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
-- 
2.43.0


From fec29652fed553c2fa6bde2e29b70104571ccd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 052/121] fix: BGR(A) to luminance-alpha weighs red and blue
 correctly

---
 DevIL/src-IL/src/il_convbuff.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index a7dd706..7597e1b 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1004,7 +1004,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								NewData[i*2] = (ILubyte)Resultf;
 								NewData[i*2+1] = UCHAR_MAX;
@@ -1016,7 +1016,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
@@ -1027,7 +1027,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
@@ -1037,7 +1037,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i*2] = Resultf;
 								((ILfloat*)(NewData))[i*2+1] = 1.0f;
@@ -1047,7 +1047,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i*2] = Resultd;
 								((ILdouble*)(NewData))[i*2+1] = 1.0;
@@ -1308,7 +1308,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								NewData[i] = (ILubyte)Resultf;
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
@@ -1320,7 +1320,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
@@ -1331,7 +1331,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILuint*)(NewData))[i] = (ILuint)Resultd;
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
@@ -1341,7 +1341,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i] = (ILfloat)Resultd;
 								((ILfloat*)(NewData))[i+1] = ((ILfloat*)(Data))[i * 2 + 3];
@@ -1351,7 +1351,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i] = Resultd;
 								((ILdouble*)(NewData))[i+1] = ((ILdouble*)(Data))[i * 2 + 3];
-- 
2.43.0


From 160bf3b7343e540064e32357f7171d5bed6e5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 053/121] fix: full intensity survives conversion to 32-bit
 integers

---
 DevIL/src-IL/src/il_convbuff.cpp | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 7597e1b..813a9f7 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -320,11 +320,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 							}
 							break;
 						case IL_FLOAT:
@@ -380,11 +380,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -628,7 +628,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 							}
 							break;
 						case IL_FLOAT:
@@ -688,7 +688,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -969,7 +969,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 							}
 							break;
 						case IL_FLOAT:
@@ -1025,11 +1025,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								Resultf = 0;
+								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
+									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -1273,7 +1273,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 							}
 							break;
 						case IL_FLOAT:
@@ -1333,7 +1333,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = (ILuint)(Resultd < UINT_MAX ? Resultd : UINT_MAX);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -2123,9 +2123,9 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX);
 						#else
-							IntPtr[i] = (ILuint)( ((ILfloat*)Buffer)[i] * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)((ILfloat*)Buffer)[i] * UINT_MAX);
 						#endif
 					}
 					break;
@@ -2134,10 +2134,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_FLOATS
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX);
 						#else
 						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-						IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+						IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX);
 						#endif
 					}
 					break;
-- 
2.43.0


From 9ffb9654d05229f532de3df4380de81fbee3e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 054/121] fix: conversion between signed and unsigned channels
 keeps the data

---
 DevIL/src-IL/src/il_convbuff.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 813a9f7..65e37c0 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1995,6 +1995,12 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 		return IL_FALSE;
 	}
 
+	// Signed and unsigned integers are treated alike.
+	if (BpcSrc == BpcDest && SrcType <= IL_UNSIGNED_INT && DestType <= IL_UNSIGNED_INT) {
+		memcpy(NewData, Buffer, Size * BpcDest);
+		return NewData;
+	}
+
 	switch (DestType)
 	{
 		case IL_UNSIGNED_BYTE:
-- 
2.43.0


From 621b4233f4532769b030d7056781a7ad03b3a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 055/121] fix: ilConvertBuffer converts colour indices to the
 requested type and needs a palette for it

---
 DevIL/src-IL/src/il_convbuff.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 65e37c0..05a3f6e 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -52,18 +52,25 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		return NULL;
 	}
 
-	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
-	if (Data == NULL)
-		return NULL;
+	if (SrcFormat == IL_COLOUR_INDEX && DestFormat != IL_COLOUR_INDEX) {
+		if (SrcPal == NULL || ilGetBpcType(SrcType) != 1) {
+			ilSetError(IL_INVALID_PARAM);
+			return NULL;
+		}
+		Data = Buffer;  // Converted below.
+	}
+	else {
+		Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
+		if (Data == NULL)
+			return NULL;
+	}
 
 	BpcDest = ilGetBpcType(DestType);
 	NumPix = SizeOfData / ilGetBpcType(SrcType);
 
 	if (DestFormat == SrcFormat) {
 		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
-		if (NewData == NULL) {
-			return IL_FALSE;
-		}
+		CHECK_ALLOC();
 		memcpy(NewData, Data, NumPix * BpcDest);
 		if (Data != Buffer)
 			ifree(Data);
@@ -109,8 +116,15 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		PalImage->Data = NULL;
 
 		// Clean up here.
+		Size = TempImage->SizeOfData;
 		ilCloseImage(PalImage);
 		ilCloseImage(TempImage);
+
+		if (ilGetBpcType(DestType) != 1 && NewData != NULL) {
+			Data = ilConvertBuffer(Size, DestFormat, DestFormat, IL_UNSIGNED_BYTE, DestType, NULL, NewData);
+			ifree(NewData);
+			return Data;
+		}
 		return NewData;
 	}
 	
-- 
2.43.0


From 0ffa202aed673125884e69e11b7e174e3b2449e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 056/121] fix: ilBlit converts the colours of an indexed source

---
 DevIL/src-IL/src/il_devil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 47cb06a..366197d 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -866,7 +866,7 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	}
 	
 	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
+	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, &Src->Pal, SrcTemp);
 	if (Converted == NULL) {
 		if (SrcTemp != iCurImage->Data)
 			ifree(SrcTemp);
-- 
2.43.0


From fbb71c3e229e28469d4b6fd3b5328cc48dc933d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 057/121] fix: iQuantizeImage releases its buffers when an
 allocation fails

---
 DevIL/src-IL/src/il_quantizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..3fb076c 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -448,6 +448,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	if (!NewData || !Palette) {
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -460,6 +461,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(Ib);
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -614,6 +616,8 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
 	if (NewImage == NULL) {
+		ifree(NewData);
+		ifree(Palette);
 		return NULL;
 	}
 	ilCopyImageAttr(NewImage, Image);
@@ -639,5 +643,6 @@ error_label:
 	ifree(Ir);
 	ifree(tag);
 	ifree(Qadd);
+	ilCloseImage(TempImage);
 	return NULL;
 }
-- 
2.43.0


From e8f9e90e8df7e271a57ca469013cce5fe58191d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 058/121] fix: reducing an image that has a palette to a new
 palette leaks the old one

---
 DevIL/src-IL/src/il_neuquant.cpp  | 1 +
 DevIL/src-IL/src/il_quantizer.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index c00f4a0..afbeae0 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -435,6 +435,7 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
+	ifree(NewImage->Pal.Palette);  // The source can have a palette, too.
 	NewImage->Pal.PalSize = netsizethink * 3;
 	NewImage->Pal.PalType = IL_PAL_BGR24;
 	NewImage->Pal.Palette = (ILubyte*)ialloc(256*3);
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 3fb076c..b7ed506 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -628,6 +628,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
+	ifree(NewImage->Pal.Palette);  // The source can have a palette, too.
 	NewImage->Pal.Palette = Palette;
 	NewImage->Pal.PalSize = 256 * 3;
 	NewImage->Pal.PalType = IL_PAL_BGR24;
-- 
2.43.0


From ab7f21e32e87040d084738f01364db8542a2400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 059/121] fix: the NeuQuant learning phase stays inside of
 small images [C07]

---
 DevIL/src-IL/src/il_neuquant.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index afbeae0..cfdbe7e 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -349,6 +349,8 @@ void learn()
 	lim = thepicture + lengthcount;
 	samplepixels = lengthcount/(3*samplefac);
 	delta = samplepixels/ncycles;
+	if (delta == 0)  // Small image
+		delta = 1;
 	alpha = initalpha;
 	radius = initradius;
 	
@@ -379,7 +381,7 @@ void learn()
 		if (rad) alterneigh(rad,j,b,g,r);   // alter neighbours
 
 		p += step;
-		if (p >= lim) p -= lengthcount;
+		while (p >= lim) p -= lengthcount;
 	
 		i++;
 		if (i%delta == 0) {	
-- 
2.43.0


From 6d981af7cbcdf00a13488696fbcd49974699752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 060/121] fix: ilTexImage and ilTexImageSurface keep the image
 when there is no memory for the new one [C18/C04]

---
 DevIL/src-IL/src/il_devil.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 366197d..8c1b166 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -150,15 +150,15 @@ ILboolean ILAPIENTRY ilTexImage(ILuint Width, ILuint Height, ILuint Depth, ILuby
 // Internal version of ilTexImage.
 ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
+	ILimage New;
+
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (ilGetBpcType(Type) == 0 || iSizeTooLarge(Width, Height, Depth, Bpp, ilGetBpcType(Type))) {  // Before anything is freed.
-		ilSetError(IL_INVALID_PARAM);
+	if (!ilInitImage(&New, Width, Height, Depth, Bpp, Format, Type, Data))  // Before anything is freed.
 		return IL_FALSE;
-	}
 
 	////
 
@@ -185,7 +185,8 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 	return IL_FALSE;
 	}*/
 
-	return ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	*Image = New;
+	return IL_TRUE;
 }
 
 
@@ -216,17 +217,15 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	ILimage* layers;
 	ILenum flags;
 	ILenum origin;
-	ILboolean retval;
+	ILimage New;
 
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (ilGetBpcType(Type) == 0 || iSizeTooLarge(Width, Height, Depth, Bpp, ilGetBpcType(Type))) {  // Before anything is freed.
-		ilSetError(IL_INVALID_PARAM);
+	if (!ilInitImage(&New, Width, Height, Depth, Bpp, Format, Type, Data))  // Before anything is freed.
 		return IL_FALSE;
-	}
 
 	////
 
@@ -255,7 +254,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	flags = Image->CubeFlags;
 	origin = Image->Origin;
 
-	retval = ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data);
+	*Image = New;
 
 	// reset our chains
 	Image->Mipmaps = mips;
@@ -265,7 +264,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	Image->CubeFlags = flags;
 	Image->Origin = origin;
 
-	return retval;
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From eafed7b05d173d977fdd8d73d8e9b334a87a5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 061/121] fix: reads and seeks in memory lumps stay inside the
 lump [C17]

---
 DevIL/src-IL/src/il_files.cpp | 36 +++++++++++------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..c6cc366 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -424,9 +424,7 @@ ILboolean ILAPIENTRY iEofFile(void)
 
 ILboolean ILAPIENTRY iEofLump(void)
 {
-	if (ReadLumpSize)
-		return (ReadLumpPos >= ReadLumpSize);
-	return IL_FALSE;
+	return (ReadLumpPos >= ReadLumpSize);
 }
 
 
@@ -446,13 +444,9 @@ ILint ILAPIENTRY iGetcFile(void)
 
 ILint ILAPIENTRY iGetcLump(void)
 {
-	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
-	if (ReadLumpSize > 0) {
-		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_EOF;
-		}
+	if (ReadLumpPos >= ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
 	return *((ILubyte*)ReadLump + ReadLumpPos++);
@@ -515,20 +509,12 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint i, ByteSize = IL_MIN( Size*Number, ReadLumpSize-ReadLumpPos);
+	ILuint i = ReadLumpSize - ReadLumpPos;  // ReadLumpPos never exceeds ReadLumpSize.
 
-	for (i = 0; i < ByteSize; i++) {
-		*((ILubyte*)Buffer + i) = *((ILubyte*)ReadLump + ReadLumpPos + i);
-		if (ReadLumpSize > 0) {  // ReadLumpSize is too large to care about apparently
-			if (ReadLumpPos + i > ReadLumpSize) {
-				ReadLumpPos += i;
-				if (i != Number)
-					ilSetError(IL_FILE_READ_ERROR);
-				return i;
-			}
-		}
-	}
+	if ((unsigned long long)Size * Number < i)
+		i = Size * Number;
 
+	memcpy(Buffer, (ILubyte*)ReadLump + ReadLumpPos, i);
 	ReadLumpPos += i;
 	if (Size != 0)
 		i /= Size;
@@ -615,13 +601,13 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
+			if (Offset < 0 || (ILuint)Offset > ReadLumpSize)
 				return 1;
 			ReadLumpPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (ReadLumpPos + Offset > ReadLumpSize)
+			if ((long long)ReadLumpPos + Offset < 0 || (long long)ReadLumpPos + Offset > ReadLumpSize)
 				return 1;
 			ReadLumpPos += Offset;
 			break;
@@ -630,7 +616,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
+			if (-(long long)Offset > ReadLumpSize)
 				return 1;
 			ReadLumpPos = ReadLumpSize + Offset;
 			break;
-- 
2.43.0


From 47f8a045a8e14c4a151b1484545f90d58de9e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 062/121] fix: image positions in a file count from where the
 handle stood, for telling as for seeking [C12]

---
 DevIL/src-IL/src/il_files.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index c6cc366..32fec67 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -310,6 +310,7 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
+	ReadFileStart = 0;
 	ReadFileStart = itell();
 }
 
@@ -341,6 +342,8 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFileStart = 0;
+	WriteFileStart = itellw();
 }
 
 
@@ -631,7 +634,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	return TellRProc(FileRead) - ReadFileStart;  // As with IL_SEEK_SET, positions count from where the image starts.
 }
 
 
@@ -749,7 +752,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	return TellWProc(FileWrite) - WriteFileStart;
 }
 
 
-- 
2.43.0


From 58bc681f15c0b9c7e2369f78fff1e7f591a09c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 063/121] fix: ilSaveF and ilSaveL save PCX, the size query
 knows VTF [C15]

---
 DevIL/src-IL/src/il_io.cpp   | 11 +++++++++++
 DevIL/src-IL/src/il_size.cpp |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..ffc77f6 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2420,6 +2420,12 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			break;
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNG
 		case IL_PNG:
 			Ret = ilSavePngF(File);
@@ -2527,6 +2533,11 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 			return ilSaveJpegL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			return ilSavePcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_PNG
 		case IL_PNG:
 			return ilSavePngL(Lump, Size);
diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..28a069a 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -169,6 +169,12 @@ ILuint ilDetermineSize(ILenum Type)
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
 			ilSaveWbmpL(NULL, 0);
-- 
2.43.0


From b86291a6088efd68e0acc02dd30e1728f10a4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 064/121] fix: a registered load handler decides the outcome,
 no built-in loader is tried after it fails [C19]

---
 DevIL/src-IL/include/il_register.h |  2 +-
 DevIL/src-IL/src/il_io.cpp         |  4 ++--
 DevIL/src-IL/src/il_register.cpp   | 12 +++++-------
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/include/il_register.h b/DevIL/src-IL/include/il_register.h
index ae19f9f..63171da 100644
--- a/DevIL/src-IL/include/il_register.h
+++ b/DevIL/src-IL/include/il_register.h
@@ -35,7 +35,7 @@ typedef struct iFormatS
 #define I_LOAD_FUNC 0
 #define I_SAVE_FUNC 1
 
-ILboolean iRegisterLoad(ILconst_string FileName);
+ILboolean iRegisterLoad(ILconst_string FileName, ILboolean *Result);
 ILboolean iRegisterSave(ILconst_string FileName);
 
 #endif//REGISTER_H
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index ffc77f6..9722021 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1876,8 +1876,8 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 
 	// Try registered procedures first (so users can override default lib functions).
 	if (Ext) {
-		if (iRegisterLoad(FileName))
-			return IL_TRUE;
+		if (iRegisterLoad(FileName, &bRet))
+			goto finish;
 
 		#ifndef IL_NO_TGA
 		if (!iStrCmp(Ext, IL_TEXT("tga")) || !iStrCmp(Ext, IL_TEXT("vda")) ||
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 54e0a55..f077004 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -172,7 +172,8 @@ void ilRemoveRegistered()
 }
 
 
-ILboolean iRegisterLoad(ILconst_string FileName)
+// Returns whether there is a handler for the extension; *Result tells if it succeeded.
+ILboolean iRegisterLoad(ILconst_string FileName, ILboolean *Result)
 {
 	iFormatL	*TempNode = LoadProcs;
 	ILstring	Ext = iGetExtension(FileName);
@@ -184,13 +185,10 @@ ILboolean iRegisterLoad(ILconst_string FileName)
 	while (TempNode != NULL) {
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			Error = TempNode->Load(FileName);
-			if (Error == IL_NO_ERROR || Error == 0) {  // 0 and IL_NO_ERROR are both valid.
-				return IL_TRUE;
-			}
-			else {
+			*Result = (Error == IL_NO_ERROR || Error == 0);  // 0 and IL_NO_ERROR are both valid.
+			if (!*Result)
 				ilSetError(Error);
-				return IL_FALSE;
-			}
+			return IL_TRUE;
 		}
 		TempNode = TempNode->Next;
 	}
-- 
2.43.0


From 729c325f464b14b32140bee1e62460f88138e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 065/121] fix: the read cache ends where the file ends and does
 not outlive the file [C17]

---
 DevIL/src-IL/src/il_files.cpp | 58 ++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 32fec67..0675fde 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -57,7 +57,8 @@ void		(ILAPIENTRY *iclosewCopy)(ILHANDLE);
 
 ILboolean	UseCache = IL_FALSE;
 ILubyte		*Cache = NULL;
-ILuint		CacheSize, CachePos, CacheStartPos, CacheBytesRead;
+ILuint		CacheSize, CacheFilled, CachePos, CacheStartPos, CacheBytesRead;
+static void	iFreeCache(void);
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -304,6 +305,7 @@ void ILAPIENTRY ilSetWrite(fOpenRProc Open, fCloseRProc Close, fPutcProc Putc, f
 // Tells DevIL that we're reading from a file, not a lump
 void iSetInputFile(ILHANDLE File)
 {
+	iFreeCache();  // A loader that failed may have left something.
 	ieof  = iEofFile;
 	igetc = iGetcFile;
 	iread = iReadFile;
@@ -318,6 +320,7 @@ void iSetInputFile(ILHANDLE File)
 // Tells DevIL that we're reading from a lump, not a file
 void iSetInputLump(const void *Lump, ILuint Size)
 {
+	iFreeCache();
 	ieof  = iEofLump;
 	igetc = iGetcLump;
 	iread = iReadLump;
@@ -436,8 +439,13 @@ ILint ILAPIENTRY iGetcFile(void)
 	if (!UseCache) {
 		return GetcProc(FileRead);
 	}
-	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+	if (CachePos >= CacheFilled) {
+		if (!iPreCache(CacheSize))
+			return GetcProc(FileRead);
+		if (CacheFilled == 0) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_EOF;
+		}
 	}
 
 	CacheBytesRead++;
@@ -473,7 +481,7 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 		return ReadProc(Buffer, Size, Number, FileRead);
 	}*/
 
-	if (BuffSize < CacheSize - CachePos) {
+	if (BuffSize < CacheFilled - CachePos) {
 		memcpy(Buffer, Cache + CachePos, BuffSize);
 		CachePos += BuffSize;
 		CacheBytesRead += BuffSize;
@@ -484,16 +492,21 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 	else {
 		while (TotalBytes < BuffSize) {
 			// If loop through more than once, after first, CachePos is 0.
-			if (TotalBytes + CacheSize - CachePos > BuffSize)
+			if (TotalBytes + CacheFilled - CachePos > BuffSize)
 				BytesCopied = BuffSize - TotalBytes;
 			else
-				BytesCopied = CacheSize - CachePos;
+				BytesCopied = CacheFilled - CachePos;
 
 			memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
 			TotalBytes += BytesCopied;
 			CachePos += BytesCopied;
 			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
+				if (!iPreCache(CacheSize)) {
+					TotalBytes += ReadProc((ILubyte*)Buffer + TotalBytes, 1, BuffSize - TotalBytes, FileRead);
+					break;
+				}
+				if (CacheFilled == 0)  // Nothing left in the file
+					break;
 			}
 		}
 	}
@@ -527,6 +540,19 @@ ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number
 }
 
 
+// Forgets what has been cached.
+static void iFreeCache()
+{
+	if (Cache) {
+		ifree(Cache);
+		Cache = NULL;
+	}
+	CacheFilled = 0;
+	CachePos = 0;
+	UseCache = IL_FALSE;
+}
+
+
 ILboolean iPreCache(ILuint Size)
 {
 	// Reading from a memory lump, so don't cache.
@@ -535,9 +561,7 @@ ILboolean iPreCache(ILuint Size)
 		return IL_TRUE;
 	}
 
-	if (Cache) {
-		ifree(Cache);
-	}
+	iFreeCache();
 
 	if (Size == 0) {
 		Size = 1;
@@ -548,14 +572,11 @@ ILboolean iPreCache(ILuint Size)
 		return IL_FALSE;
 	}
 
-	UseCache = IL_FALSE;
 	CacheStartPos = itell();
-	CacheSize = iread(Cache, 1, Size);
-	if (CacheSize != Size)
+	CacheFilled = iread(Cache, 1, Size);
+	if (CacheFilled != Size)
 		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
 
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
 	CacheSize = Size;
 	CachePos = 0;
 	UseCache = IL_TRUE;
@@ -577,12 +598,7 @@ void iUnCache()
 		return;
 
 	CacheSize = 0;
-	CachePos = 0;
-	if (Cache) {
-		ifree(Cache);
-		Cache = NULL;
-	}
-	UseCache = IL_FALSE;
+	iFreeCache();
 
 	iseek(CacheStartPos + CacheBytesRead, IL_SEEK_SET);
 
-- 
2.43.0


From 593df11a20804efd687ee0adf18cc670c58b296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 066/121] fix: a save whose data could not be written fails
 [C13]

---
 DevIL/src-IL/src/il_files.cpp | 54 ++++++++++++++---------
 DevIL/src-IL/src/il_io.cpp    | 82 ++++++++++++++++++++++++++---------
 2 files changed, 95 insertions(+), 41 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 0675fde..bc4dfee 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -40,6 +40,8 @@ const void *ReadLump = NULL;
 void 		*WriteLump = NULL;
 ILuint		ReadLumpPos = 0, ReadLumpSize = 0, ReadFileStart = 0, WriteFileStart = 0;
 ILuint		WriteLumpPos = 0, WriteLumpSize = 0;
+ILboolean	WriteError = IL_FALSE;  // Something could not be written since iSetOutput... was called.
+static void	iWriteFailed(void);
 
 fGetcProc	GetcProcCopy;
 fReadProc	ReadProcCopy;
@@ -240,7 +242,8 @@ ILHANDLE ILAPIENTRY iDefaultOpenW(ILconst_string FileName)
 
 void ILAPIENTRY iDefaultCloseW(ILHANDLE Handle)
 {
-	fclose((FILE*)Handle);
+	if (fclose((FILE*)Handle) != 0)  // Buffered data could not be written.
+		iWriteFailed();
 	return;
 }
 
@@ -345,6 +348,7 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteError = IL_FALSE;
 	WriteFileStart = 0;
 	WriteFileStart = itellw();
 }
@@ -374,6 +378,7 @@ void iSetOutputLump(void *Lump, ILuint Size)
 	iseekw = iSeekWLump;
 	itellw = iTellWLump;
 	iwrite = iWriteLump;
+	WriteError = IL_FALSE;
 	WriteLump = Lump;
 	WriteLumpPos = 0;
 	WriteLumpSize = Size;
@@ -672,18 +677,32 @@ const ILubyte* ILAPIENTRY iGetLump(void) {
 
 
 
+// Reports once per image that not all of it could be written.
+static void iWriteFailed()
+{
+	if (!WriteError)
+		ilSetError(IL_FILE_WRITE_ERROR);
+	WriteError = IL_TRUE;
+}
+
+
 // Next 4 functions are the default write functions
 
 ILint ILAPIENTRY iPutcFile(ILubyte Char)
 {
-	return PutcProc(Char, FileWrite);
+	ILint Result = PutcProc(Char, FileWrite);
+	if (Result == IL_EOF)
+		iWriteFailed();
+	return Result;
 }
 
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
-	if (WriteLumpPos >= WriteLumpSize)
-		return IL_EOF;  // IL_EOF
+	if (WriteLumpPos >= WriteLumpSize) {
+		iWriteFailed();
+		return IL_EOF;
+	}
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
 	return Char;
 }
@@ -694,7 +713,7 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint NumWritten;
 	NumWritten = WriteProc(Buffer, Size, Number, FileWrite);
 	if (NumWritten != Number) {
-		ilSetError(IL_FILE_WRITE_ERROR);
+		iWriteFailed();
 		return 0;
 	}
 	return NumWritten;
@@ -704,23 +723,16 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 {
 	ILuint SizeBytes = Size * Number;
-	ILuint i = 0;
 
-	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i;
-			}
-		}
-
-		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
+	if ((unsigned long long)Size * Number > WriteLumpSize - WriteLumpPos) {
+		iWriteFailed();
+		return 0;
 	}
 
+	memcpy((ILubyte*)WriteLump + WriteLumpPos, Buffer, SizeBytes);
 	WriteLumpPos += SizeBytes;
-	
-	return SizeBytes;
+
+	return Number;
 }
 
 
@@ -738,13 +750,13 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
+			if (Offset < 0 || (ILuint)Offset > WriteLumpSize)
 				return 1;
 			WriteLumpPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (WriteLumpPos + Offset > WriteLumpSize)
+			if ((long long)WriteLumpPos + Offset < 0 || (long long)WriteLumpPos + Offset > WriteLumpSize)
 				return 1;
 			WriteLumpPos += Offset;
 			break;
@@ -753,7 +765,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
+			if (-(long long)Offset > WriteLumpSize)
 				return 1;
 			WriteLumpPos = WriteLumpSize + Offset;
 			break;
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 9722021..d972ebb 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -15,6 +15,8 @@
 #include "il_pal.h"
 #include <string.h>
 
+extern ILboolean WriteError;  // il_files.cpp
+
 
 // Returns a widened version of a string.
 // Make sure to free this after it is used.  Code help from
@@ -2246,14 +2248,7 @@ finish:
 }
 
 
-//! Attempts to save an image to a file.  The file format is specified by the user.
-/*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
-	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
-	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename to save to.
-	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+static ILboolean iSaveType(ILenum Type, ILconst_string FileName)
 {
 	switch (Type)
 	{
@@ -2359,13 +2354,24 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 }
 
 
-//! Attempts to save an image to a file stream.  The file format is specified by the user.
+//! Attempts to save an image to a file.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
 	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param File File stream to save to.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
+ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+{
+	ILboolean Result;
+
+	WriteError = IL_FALSE;
+	Result = iSaveType(Type, FileName);
+	return WriteError ? 0 : Result;
+}
+
+
+static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 {
 	ILboolean Ret;
 
@@ -2486,14 +2492,23 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 }
 
 
-//! Attempts to save an image to a memory buffer.  The file format is specified by the user.
-/*! \param Type Format of this image file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
+//! Attempts to save an image to a file stream.  The file format is specified by the user.
+/*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
 	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param Lump Memory buffer to save to
-	\param Size Size of the memory buffer
+	\param File File stream to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
+{
+	ILuint Result;
+
+	WriteError = IL_FALSE;
+	Result = iSaveTypeF(Type, File);
+	return WriteError ? 0 : Result;
+}
+
+
+static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size)
 {
 	if (Lump == NULL) {
 		if (Size != 0) {
@@ -2594,11 +2609,24 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
-//! Saves the current image based on the extension given in FileName.
-/*! \param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename to save to.
+//! Attempts to save an image to a memory buffer.  The file format is specified by the user.
+/*! \param Type Format of this image file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
+	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
+	IL_VTF, IL_WBMP and IL_JASC_PAL.
+	\param Lump Memory buffer to save to
+	\param Size Size of the memory buffer
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
+ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+{
+	ILuint Result;
+
+	WriteError = IL_FALSE;
+	Result = iSaveTypeL(Type, Lump, Size);
+	return WriteError ? 0 : Result;
+}
+
+
+static ILboolean iSaveByExt(ILconst_string FileName)
 {
 	ILstring Ext;
 	ILboolean	bRet = IL_FALSE;
@@ -2770,3 +2798,17 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 finish:
 	return bRet;
 }
+
+
+//! Saves the current image based on the extension given in FileName.
+/*! \param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename to save to.
+	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
+ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
+{
+	ILboolean Result;
+
+	WriteError = IL_FALSE;
+	Result = iSaveByExt(FileName);
+	return WriteError ? 0 : Result;
+}
-- 
2.43.0


From 754f8a301f34973995f437fbfad24d6a95068983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 067/121] fix: a TGA is saved the right way up, without
 touching the image, and a colour map in an unmapped TGA is skipped [C14]

---
 DevIL/src-IL/src/il_targa.cpp | 60 +++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..2f45cf0 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -336,6 +336,8 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
+	if (Header->ColMapPresent)  // The pixels do not use it.
+		iseek((ILushort)Header->ColMapLen * ((Header->ColMapEntSize + 7) >> 3), IL_SEEK_CUR);
 	
 	/*if (Header->Bpp == 16)
 		Bpp = 3;
@@ -414,9 +416,8 @@ ILboolean iReadBwTga(TARGAHEAD *Header)
 	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
-	
-	// We assume that no palette is present, but it's possible...
-	//	Should we mess with it or not?
+	if (Header->ColMapPresent)  // The pixels do not use it.
+		iseek((ILushort)Header->ColMapLen * ((Header->ColMapEntSize + 7) >> 3), IL_SEEK_CUR);
 	
 	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
@@ -623,7 +624,7 @@ ILboolean iSaveTargaInternal()
 	if (ID)
 		IDLen = (ILubyte)ilCharStrLen(ID);
 	
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
+	if (iCurImage->Format == IL_COLOUR_INDEX && iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
 		UsePal = IL_TRUE;
 	else
 		UsePal = IL_FALSE;
@@ -648,7 +649,7 @@ ILboolean iSaveTargaInternal()
 			break;
 		case IL_RGB:
 		case IL_RGBA:
-			ilSwapColours();
+			Format = Format == IL_RGB ? IL_BGR : IL_BGRA;
 			if (Compress)
 				Type = 10;
 			else
@@ -672,7 +673,7 @@ ILboolean iSaveTargaInternal()
 	iwrite(&Type, sizeof(ILubyte), 1);
 	SaveLittleShort(ColMapStart);
 	
-	switch (iCurImage->Pal.PalType)
+	switch (UsePal ? iCurImage->Pal.PalType : IL_PAL_NONE)
 	{
 		case IL_PAL_NONE:
 			PalSize = 0;
@@ -690,9 +691,13 @@ ILboolean iSaveTargaInternal()
 		case IL_PAL_BGR32:
 		case IL_PAL_BGRA32:
 			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR24);
-			if (TempPal == NULL)
+			if (TempPal == NULL) {
+				ifree(ID);
+				ifree(AuthName);
+				ifree(AuthComment);
 				return IL_FALSE;
-				PalSize = (ILshort)(TempPal->PalSize / 3);
+			}
+			PalSize = (ILshort)(TempPal->PalSize / 3);
 			PalEntSize = 24;
 			break;
 		default:
@@ -707,12 +712,16 @@ ILboolean iSaveTargaInternal()
 	SaveLittleShort(PalSize);
 	iwrite(&PalEntSize, sizeof(ILubyte), 1);
 	
-	if (iCurImage->Bpc > 1) {
-		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
+	if (iCurImage->Format != Format || iCurImage->Bpc > 1) {
+		TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
 		if (TempImage == NULL) {
 			ifree(ID);
 			ifree(AuthName);
 			ifree(AuthComment);
+			if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
 			return IL_FALSE;
 		}
 	}
@@ -726,6 +735,25 @@ ILboolean iSaveTargaInternal()
 	else
 		TempData = (char*)TempImage->Data;
 	
+	Rle = NULL;
+	RleLen = 0;
+	if (TempData != NULL && Compress)
+		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+	if (TempData == NULL || (Compress && Rle == NULL)) {
+		ifree(ID);
+		ifree(AuthName);
+		ifree(AuthComment);
+		if (TempData != (char*)TempImage->Data)
+			ifree(TempData);
+		if (TempPal != &iCurImage->Pal && TempPal != NULL) {
+			ifree(TempPal->Palette);
+			ifree(TempPal);
+		}
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
+		return IL_FALSE;
+	}
+
 	// Write out the origin stuff.
 	iwrite(&zero_short, sizeof(ILshort), 1);
 	iwrite(&zero_short, sizeof(ILshort), 1);
@@ -741,8 +769,7 @@ ILboolean iSaveTargaInternal()
 	Temp = 0;
 	if (iCurImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// The rows are always written from the bottom up.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
 	ifree(ID);
@@ -757,12 +784,6 @@ ILboolean iSaveTargaInternal()
 	if (!Compress)
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
-		if (Rle == NULL) {
-			ifree(AuthName);
-			ifree(AuthComment);
-			return IL_FALSE;
-		}
 		RleLen = ilRleCompress((unsigned char*)TempData, TempImage->Width, TempImage->Height,
 		                       TempImage->Depth, TempImage->Bpp, Rle, IL_TGACOMP, NULL);
 		
@@ -822,9 +843,6 @@ ILboolean iSaveTargaInternal()
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		ifree(TempData);
 	}
-	if (Format == IL_RGB || Format == IL_RGBA) {
-		ilSwapColours();
-	}
 	
 	if (TempPal != &iCurImage->Pal && TempPal != NULL) {
 		ifree(TempPal->Palette);
-- 
2.43.0


From 38aa56eb7ee796ee0b5fdcf957a44db04002e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 068/121] fix: SGI images of 16 bits per channel are loaded and
 saved correctly, no stale name is written, overlong runs are refused [C14]

---
 DevIL/src-IL/src/il_sgi.cpp | 111 ++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..1a9deaa 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -15,7 +15,6 @@
 #include "il_sgi.h"
 #include <limits.h>
 
-static char *FName = NULL;
 
 /*----------------------------------------------------------------------------*/
 
@@ -30,8 +29,6 @@ ILboolean ilIsValidSgi(ILconst_string FileName)
 		return bSgi;
 	}
 
-	FName = (char*)FileName;
-
 	SgiFile = iopenr(FileName);
 	if (SgiFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
@@ -65,7 +62,6 @@ ILboolean ilIsValidSgiF(ILHANDLE File)
 //! Checks if Lump is a valid .sgi lump.
 ILboolean ilIsValidSgiL(const void *Lump, ILuint Size)
 {
-	FName = NULL;
 	iSetInputLump(Lump, Size);
 	return iIsValidSgi();
 }
@@ -282,9 +278,9 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	for (ixPixel = 0; ixPixel < iCurImage->SizeOfData;
 		ixPixel += Head->ZSize * Head->Bpc, ChanInt += Head->Bpc) {
 		for (ixPlane = 0; (ILint)ixPlane < Head->ZSize * Head->Bpc;	ixPlane += Head->Bpc) {
-			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane][ChanInt];
+			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane / Head->Bpc][ChanInt];
 			if (Head->Bpc == 2)
-				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane][ChanInt + 1];
+				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane / Head->Bpc][ChanInt + 1];
 		}
 	}
 
@@ -328,13 +324,18 @@ ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 		Pixel = 0;
 		if (iread(&Pixel, Head->Bpc, 1) != 1)
 			return -1;
-		
+
+		if (Head->Bpc == 2)
+			BigUShort(&Pixel);
 #ifndef __LITTLE_ENDIAN__
-		iSwapUShort(&Pixel);
+		else
+			iSwapUShort(&Pixel);
 #endif
 
 		if (!(Count = (Pixel & 0x7f)))  // If 0, line ends
 			return CurPos;
+		if (Count * Head->Bpc > Bps - CurPos)  // More than fits into the line
+			return -1;
 		if (Pixel & 0x80) {  // If top bit set, then it is a "run"
 			if (iread(ScanLine, Head->Bpc, Count) != Count)
 				return -1;
@@ -346,7 +347,8 @@ ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 			if (iread(&Pixel, Head->Bpc, 1) != 1)
 				return -1;
 #ifndef __LITTLE_ENDIAN__
-			iSwapUShort(&Pixel);
+			if (Head->Bpc == 1)
+				iSwapUShort(&Pixel);
 #endif
 			if (Head->Bpc == 1) {
 				while (Count--) {
@@ -375,7 +377,7 @@ ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 // Much easier to read - just assemble from planes, no decompression
 ILboolean iReadNonRleSgi(iSgiHeader *Head)
 {
-	ILuint		i, c;
+	ILuint		i, c, b, PixSize;
 	// ILint		ChanInt = 0; Unused
 	ILint 		ChanSize;
 	ILboolean	Cache = IL_FALSE;
@@ -390,12 +392,15 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 		iPreCache(ChanSize);
 	}
 
-	for (c = 0; c < iCurImage->Bpp; c++) {
-		for (i = c; i < iCurImage->SizeOfData; i += iCurImage->Bpp) {
-			if (iread(iCurImage->Data + i, 1, 1) != 1) {
-				if (Cache)
-					iUnCache();
-				return IL_FALSE;
+	PixSize = iCurImage->Bpp * iCurImage->Bpc;
+	for (c = 0; c < PixSize; c += iCurImage->Bpc) {
+		for (i = c; i < iCurImage->SizeOfData; i += PixSize) {
+			for (b = 0; b < iCurImage->Bpc; b++) {
+				if (iread(iCurImage->Data + i + b, 1, 1) != 1) {
+					if (Cache)
+						iUnCache();
+					return IL_FALSE;
+				}
 			}
 		}
 	}
@@ -403,6 +408,11 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	if (Cache)
 		iUnCache();
 
+	#ifdef __LITTLE_ENDIAN__
+	if (iCurImage->Bpc == 2)
+		sgiSwitchData(iCurImage->Data, iCurImage->SizeOfData);
+	#endif
+
 	return IL_TRUE;
 }
 
@@ -442,24 +452,21 @@ void sgiSwitchData(ILubyte *Data, ILuint SizeOfData)
 // Just an internal convenience function for reading SGI files
 ILboolean iNewSgi(iSgiHeader *Head)
 {
-	if (!ilTexImage(Head->XSize, Head->YSize, Head->Bpc, (ILubyte)Head->ZSize, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+	ILenum	Format, Type;
 
 	switch (Head->ZSize)
 	{
 		case 1:
-			iCurImage->Format = IL_LUMINANCE;
+			Format = IL_LUMINANCE;
 			break;
 		/*case 2:
-			iCurImage->Format = IL_LUMINANCE_ALPHA; 
+			Format = IL_LUMINANCE_ALPHA; 
 			break;*/
 		case 3:
-			iCurImage->Format = IL_RGB;
+			Format = IL_RGB;
 			break;
 		case 4:
-			iCurImage->Format = IL_RGBA;
+			Format = IL_RGBA;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -470,21 +477,24 @@ ILboolean iNewSgi(iSgiHeader *Head)
 	{
 		case 1:
 			if (Head->PixMin < 0)
-				iCurImage->Type = IL_BYTE;
+				Type = IL_BYTE;
 			else
-				iCurImage->Type = IL_UNSIGNED_BYTE;
+				Type = IL_UNSIGNED_BYTE;
 			break;
 		case 2:
 			if (Head->PixMin < 0)
-				iCurImage->Type = IL_SHORT;
+				Type = IL_SHORT;
 			else
-				iCurImage->Type = IL_UNSIGNED_SHORT;
+				Type = IL_UNSIGNED_SHORT;
 			break;
 		default:
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
 
+	if (!ilTexImage(Head->XSize, Head->YSize, 1, (ILubyte)Head->ZSize, Format, Type, NULL)) {
+		return IL_FALSE;
+	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
 	return IL_TRUE;
@@ -561,8 +571,8 @@ ILenum DetermineSgiType(ILenum Type)
 // Internal function used to save the Sgi.
 ILboolean iSaveSgiInternal()
 {
-	ILuint		i, c;
-	ILboolean	Compress;
+	ILuint		i, c, b;
+	ILboolean	Compress, Saved = IL_TRUE;
 	ILimage		*Temp = iCurImage;
 	ILubyte		*TempData;
 
@@ -587,23 +597,19 @@ ILboolean iSaveSgiInternal()
 		Temp = iConvertImage(iCurImage, iCurImage->Format, DetermineSgiType(iCurImage->Type));
 	}
 	
-	//compression of images with 2 bytes per channel doesn't work yet
-	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
-
 	if (Temp == NULL)
 		return IL_FALSE;
 
+	//compression of images with 2 bytes per channel doesn't work yet
+	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
+
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
 		iputc(1);
 	else
 		iputc(0);
 
-	if (Temp->Type == IL_UNSIGNED_BYTE)
-		iputc(1);
-	else if (Temp->Type == IL_UNSIGNED_SHORT)
-		iputc(2);
-	// Need to error here if not one of the two...
+	iputc(Temp->Bpc);
 
 	if (Temp->Format == IL_LUMINANCE || Temp->Format == IL_COLOUR_INDEX)
 		SaveBigUShort(2);
@@ -636,19 +642,8 @@ ILboolean iSaveSgiInternal()
 
 	SaveBigInt(0);  // Dummy value
 
-	if (FName) {
-		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
-		iwrite(FName, 1, c);
-		c = 80 - c;
-		for (i = 0; i < c; i++) {
-			iputc(0);
-		}
-	}
-	else {
-		for (i = 0; i < 80; i++) {
-			iputc(0);
-		}
+	for (i = 0; i < 80; i++) {  // No image name
+		iputc(0);
 	}
 
 	SaveBigUInt(0);  // Colormap
@@ -674,13 +669,19 @@ ILboolean iSaveSgiInternal()
 
 	if (!Compress) {
 		for (c = 0; c < Temp->Bpp; c++) {
-			for (i = c; i < Temp->SizeOfData; i += Temp->Bpp) {
-				iputc(TempData[i]);  // Have to save each colour plane separately.
+			for (i = c * Temp->Bpc; i < Temp->SizeOfData; i += Temp->Bpp * Temp->Bpc) {
+				for (b = 0; b < Temp->Bpc; b++) {  // Have to save each colour plane separately, big endian.
+#ifdef __LITTLE_ENDIAN__
+					iputc(TempData[i + Temp->Bpc - 1 - b]);
+#else
+					iputc(TempData[i + b]);
+#endif
+				}
 			}
 		}
 	}
 	else {
-		iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
+		Saved = iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
 	}
 
 
@@ -689,7 +690,7 @@ ILboolean iSaveSgiInternal()
 	if (Temp != iCurImage)
 		ilCloseImage(Temp);
 
-	return IL_TRUE;
+	return Saved;
 }
 
 /*----------------------------------------------------------------------------*/
-- 
2.43.0


From a4739d12a7bc8034a18d44a1a654e619a88347e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 069/121] fix: PCX files are saved with the planes and palette
 they announce, their loader checks the line length [C14]

---
 DevIL/src-IL/src/il_pcx.cpp | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..abf8917 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -262,6 +262,11 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			return IL_FALSE;
 	}
 
+	if (Header->Bps < iCurImage->Width) {  // The scan lines would be too short.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	ScanLineSize = iCurImage->Bpp*Header->Bps;
 	ScanLine = (ILubyte*)ialloc(ScanLineSize);
 	if (ScanLine == NULL) {
@@ -324,6 +329,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			iCurImage->Pal.PalSize = 0;
 			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
@@ -534,8 +540,8 @@ ILuint ilSavePcxL(void *Lump, ILuint Size)
 // Internal function used to save the .pcx.
 ILboolean iSavePcxInternal()
 {
-	ILuint	i, c, PalSize;
-	ILpal	*TempPal;
+	ILuint	i, c, PalSize = 0;
+	ILpal	*TempPal = NULL;
 	ILimage	*TempImage = iCurImage;
 	ILubyte	*TempData;
 
@@ -559,6 +565,7 @@ ILboolean iSavePcxInternal()
 			break;
 
 		case IL_BGRA:
+		case IL_LUMINANCE_ALPHA:  // Two planes are not possible.
 			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
@@ -585,6 +592,17 @@ ILboolean iSavePcxInternal()
 		TempData = TempImage->Data;
 	}
 
+	// The palette has to be in RGB24 format.
+	if (TempImage->Format == IL_COLOUR_INDEX && TempImage->Pal.PalType != IL_PAL_RGB24) {
+		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL) {
+			if (TempData != TempImage->Data)
+				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+	}
 
 	iputc(0xA);  // Manufacturer - always 10
 	iputc(0x5);  // Version Number - always 5
@@ -603,7 +621,7 @@ ILboolean iSavePcxInternal()
 	}
 	iputc(0x0);  // Reserved - always 0
 
-	iputc(iCurImage->Bpp);  // Number of planes - only 1 is supported right now
+	iputc(TempImage->Bpp);  // Number of planes - only 1 is supported right now
 
 	SaveLittleUShort((ILushort)(iCurImage->Width & 1 ? iCurImage->Width + 1 : iCurImage->Width));  // Bps
 	SaveLittleUShort(0x1);  // Palette type - ignored?
@@ -626,33 +644,24 @@ ILboolean iSavePcxInternal()
 
 	// If the current image has a palette, take care of it
 	if (TempImage->Format == IL_COLOUR_INDEX) {
-		// If the palette in .pcx format, write it directly
-		if (TempImage->Pal.PalType == IL_PAL_RGB24) {
-			iwrite(TempImage->Pal.Palette, 1, TempImage->Pal.PalSize);
+		if (TempPal == NULL) {
+			PalSize = IL_MIN(TempImage->Pal.PalSize, 768);
+			iwrite(TempImage->Pal.Palette, 1, PalSize);
 		}
 		else {
-			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-			if (TempPal == NULL) {
-				if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
-					ifree(TempData);
-				if (TempImage != iCurImage)
-					ilCloseImage(TempImage);
-				return IL_FALSE;
-			}
-
-			iwrite(TempPal->Palette, 1, TempPal->PalSize);
+			PalSize = IL_MIN(TempPal->PalSize, 768);
+			iwrite(TempPal->Palette, 1, PalSize);
 			ifree(TempPal->Palette);
 			ifree(TempPal);
 		}
 	}
 
 	// If the palette is not all 256 colours, we have to pad it.
-	PalSize = 768 - iCurImage->Pal.PalSize;
-	for (i = 0; i < PalSize; i++) {
+	for (i = PalSize; i < 768; i++) {
 		iputc(0x0);
 	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+	if (TempData != TempImage->Data)
 		ifree(TempData);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
-- 
2.43.0


From 94cdb37b9f05c86664d3a576d7d0d1a3b8f17d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 070/121] fix: PNM text files of any line length and 16-bit
 values load and save, short ones are refused; every failed load reports an
 error [C14]

---
 DevIL/src-IL/include/il_internal.h |   1 +
 DevIL/src-IL/src/il_error.cpp      |   2 +
 DevIL/src-IL/src/il_internal.cpp   |   3 +-
 DevIL/src-IL/src/il_io.cpp         | 116 +++++++++++++++-------
 DevIL/src-IL/src/il_pnm.cpp        | 148 ++++++++++++-----------------
 5 files changed, 147 insertions(+), 123 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..60918ac 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -117,6 +117,7 @@ extern "C" {
 	#endif
 #endif
 extern ILimage *iCurImage;
+extern ILuint iErrorCount;
 #define BIT_0	0x00000001
 #define BIT_1	0x00000002
 #define BIT_2	0x00000004
diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 159c7df..5be89f2 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -19,6 +19,7 @@
 
 ILenum	ilErrorNum[IL_ERROR_STACK_SIZE];
 ILint	ilErrorPlace = (-1);
+ILuint	iErrorCount = 0;  // How many errors have been set so far
 
 
 // Sets the current error
@@ -27,6 +28,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 {
 	ILuint i;
 
+	iErrorCount++;
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
 		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
diff --git a/DevIL/src-IL/src/il_internal.cpp b/DevIL/src-IL/src/il_internal.cpp
index 95a85a4..61f15ea 100644
--- a/DevIL/src-IL/src/il_internal.cpp
+++ b/DevIL/src-IL/src/il_internal.cpp
@@ -184,7 +184,8 @@ ILbyte *iFgets(char *buffer, ILuint maxlen)
 	ILuint	counter = 0;
 	ILint	temp = '\0';
 
-	while ((temp = igetc()) && temp != '\n' && temp != IL_EOF && counter < maxlen) {
+	// Leaves room for the terminating zero.
+	while (counter + 1 < maxlen && (temp = igetc()) && temp != '\n' && temp != IL_EOF) {
 		buffer[counter] = temp;
 		counter++;
 	}
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index d972ebb..460390c 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1000,18 +1000,7 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
-//! Attempts to load an image from a file.  The file format is specified by the user.
-/*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
-	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
-	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
-	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
-	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
-	If IL_TYPE_UNKNOWN is specified, ilLoad will try to determine the type of the file and load it.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename of the file to load.
-	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
-	       have been tried and failed.*/
-ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+static ILboolean iLoadType(ILenum Type, ILconst_string FileName)
 {
 	ILboolean	bRet;
 
@@ -1320,16 +1309,30 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 }
 
 
-//! Attempts to load an image from a file stream.  The file format is specified by the user.
+//! Attempts to load an image from a file.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
 	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
 	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
 	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
 	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
-	If IL_TYPE_UNKNOWN is specified, ilLoadF will try to determine the type of the file and load it.
-	\param File File stream to load from.
-	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
-ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+	If IL_TYPE_UNKNOWN is specified, ilLoad will try to determine the type of the file and load it.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename of the file to load.
+	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
+	       have been tried and failed.*/
+ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
+{
+	ILuint		Errors = iErrorCount;
+	ILboolean	bRet = iLoadType(Type, FileName);
+
+	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
+		ilSetError(IL_INVALID_FILE_HEADER);
+
+	return bRet;
+}
+
+
+static ILboolean iLoadTypeF(ILenum Type, ILHANDLE File)
 {
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1584,17 +1587,28 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 }
 
 
-//! Attempts to load an image from a memory buffer.  The file format is specified by the user.
+//! Attempts to load an image from a file stream.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
 	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
 	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
 	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
 	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
-	If IL_TYPE_UNKNOWN is specified, ilLoadL will try to determine the type of the file and load it.
-	\param Lump The buffer where the file data is located
-	\param Size Size of the buffer
+	If IL_TYPE_UNKNOWN is specified, ilLoadF will try to determine the type of the file and load it.
+	\param File File stream to load from.
 	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
-ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
+{
+	ILuint		Errors = iErrorCount;
+	ILboolean	bRet = iLoadTypeF(Type, File);
+
+	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
+		ilSetError(IL_INVALID_FILE_HEADER);
+
+	return bRet;
+}
+
+
+static ILboolean iLoadTypeL(ILenum Type, const void *Lump, ILuint Size)
 {
 	if (Lump == NULL || Size == 0) {
 		ilSetError(IL_INVALID_PARAM);
@@ -1847,18 +1861,29 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 }
 
 
-//! Attempts to load an image from a file with various different methods before failing - very generic.
-/*! The ilLoadImage function allows a general interface to the specific internal file-loading
-	routines.  First, it finds the extension and checks to see if any user-registered functions
-	(registered through ilRegisterLoad) match the extension. If nothing matches, it takes the
-	extension and determines which function to call based on it. Lastly, it attempts to identify
-	the image based on various image header verification functions, such as ilIsValidPngF.
-	If all this checking fails, IL_FALSE is returned with no modification to the current bound image.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename of the file to load.
-	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
-	       have been tried and failed.*/
-ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+//! Attempts to load an image from a memory buffer.  The file format is specified by the user.
+/*! \param Type Format of this file.  Acceptable values are IL_BLP, IL_BMP, IL_CUT, IL_DCX, IL_DDS,
+	IL_DICOM, IL_DOOM, IL_DOOM_FLAT, IL_DPX, IL_EXR, IL_FITS, IL_FTX, IL_GIF, IL_HDR, IL_ICO, IL_ICNS,
+	IL_IFF, IL_IWI, IL_JP2, IL_JPG, IL_LIF, IL_MDL,	IL_MNG, IL_MP3, IL_PCD, IL_PCX, IL_PIX, IL_PNG,
+	IL_PNM, IL_PSD, IL_PSP, IL_PXR, IL_ROT, IL_SGI, IL_SUN, IL_TEXTURE, IL_TGA, IL_TIF, IL_TPL,
+	IL_UTX, IL_VTF, IL_WAL, IL_WBMP, IL_XPM, IL_RAW, IL_JASC_PAL and IL_TYPE_UNKNOWN.
+	If IL_TYPE_UNKNOWN is specified, ilLoadL will try to determine the type of the file and load it.
+	\param Lump The buffer where the file data is located
+	\param Size Size of the buffer
+	\return Boolean value of failure or success.  Returns IL_FALSE if loading fails.*/
+ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
+{
+	ILuint		Errors = iErrorCount;
+	ILboolean	bRet = iLoadTypeL(Type, Lump, Size);
+
+	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
+		ilSetError(IL_INVALID_FILE_HEADER);
+
+	return bRet;
+}
+
+
+static ILboolean iLoadByName(ILconst_string FileName)
 {
 	ILstring	Ext;
 	ILenum		Type;
@@ -2248,6 +2273,29 @@ finish:
 }
 
 
+//! Attempts to load an image from a file with various different methods before failing - very generic.
+/*! The ilLoadImage function allows a general interface to the specific internal file-loading
+	routines.  First, it finds the extension and checks to see if any user-registered functions
+	(registered through ilRegisterLoad) match the extension. If nothing matches, it takes the
+	extension and determines which function to call based on it. Lastly, it attempts to identify
+	the image based on various image header verification functions, such as ilIsValidPngF.
+	If all this checking fails, IL_FALSE is returned with no modification to the current bound image.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename of the file to load.
+	\return Boolean value of failure or success.  Returns IL_FALSE if all three loading methods
+	       have been tried and failed.*/
+ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
+{
+	ILuint		Errors = iErrorCount;
+	ILboolean	bRet = iLoadByName(FileName);
+
+	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
+		ilSetError(IL_INVALID_FILE_HEADER);
+
+	return bRet;
+}
+
+
 static ILboolean iSaveType(ILenum Type, ILconst_string FileName)
 {
 	switch (Type)
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..8fd20db 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -200,10 +200,6 @@ ILboolean iLoadPnmInternal()
 			break;
 		case '4':
 			Info.Type = IL_PBM_BINARY;
-			if (IsLump) {
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return IL_FALSE;
-			}
 			break;
 		case '5':
 			Info.Type = IL_PGM_BINARY;
@@ -255,14 +251,7 @@ ILboolean iLoadPnmInternal()
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
 	{
-		if (Info.Type == IL_PGM_ASCII)
-		{
-			Info.Bpp = Info.MaxColour < 256 ? 1 : 2;
-		}
-		else
-		{
-			Info.Bpp = 1;
-		}
+		Info.Bpp = 1;
 	}
 	else
 	{
@@ -291,7 +280,6 @@ ILboolean iLoadPnmInternal()
 
 	if (PmImage == NULL)
 	{
-	    iCurImage->Format = ilGetFormatBpp(iCurImage->Bpp);
 	    ilSetError(IL_FILE_READ_ERROR);
 	    return IL_FALSE;
 	}
@@ -302,8 +290,6 @@ ILboolean iLoadPnmInternal()
 		PbmMaximize(PmImage);
 	}
 
-	if (Info.MaxColour > 255)
-		PmImage->Type = IL_UNSIGNED_SHORT;
 	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
@@ -319,69 +305,54 @@ ILboolean iLoadPnmInternal()
 
 
 
-ILimage *ilReadAsciiPpm(PPMINFO *Info)
+// Reads the next number of an ASCII file.
+static ILboolean iGetNumber(ILint *Number)
 {
-	ILint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
-//	ILint	BytesRead = 0;
-
-	if (Info->MaxColour > 255)
-		Info->Bpp *= 2;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
+	ILint	Current, Length = 0;
+	char	Buff[16];
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
+	while ((Current = igetc()) != IL_EOF && !isalnum(Current)) {  // Skip any whitespace
+		if (Current == '#') {  // Comment
+			while ((Current = igetc()) != IL_EOF && Current != '\n');
+		}
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info->MaxColour > 255)
-		iCurImage->Type = IL_UNSIGNED_SHORT;
-
-	while (DataInc < Size) {  // && !feof(File)) {
-		LineInc = 0;
+	while (Current != IL_EOF && isalnum(Current)) {
+		if (Length < 15)
+			Buff[Length++] = (char)Current;
+		Current = igetc();
+	}
+	Buff[Length] = NUL;
+	*Number = atoi(Buff);
 
-		if (iFgets((char *)LineBuffer, MAX_BUFFER) == NULL) {
-			//ilSetError(IL_ILLEGAL_FILE_VALUE);
-			//return NULL;
-			//return iCurImage;
-			break;
-		}
-		if (LineBuffer[0] == '#') {  // Comment
-			continue;
-		}
+	return Length > 0;
+}
 
-		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n')) {
 
-			SmallInc = 0;
-			while (!isalnum(LineBuffer[LineInc])) {  // Skip any whitespace
-				LineInc++;
-			}
-			while (isalnum(LineBuffer[LineInc])) {
-				SmallBuff[SmallInc] = LineBuffer[LineInc];
-				SmallInc++;
-				LineInc++;
-			}
-			SmallBuff[SmallInc] = NUL;
-			iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);  // Convert from string to colour
+ILimage *ilReadAsciiPpm(PPMINFO *Info)
+{
+	ILuint	i, Num;
+	ILint	Value;
 
-			// PSP likes to put whitespace at the end of lines...figures. =/
-			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
-				LineInc++;
-			}
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), Info->Bpp == 1 ? IL_LUMINANCE : IL_RGB,
+		Info->MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL)) {
+		return NULL;
+	}
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-			// We should set some kind of state flag that enables this
-			//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255		
-			if (Info->MaxColour > 255)
-				DataInc++;
-			DataInc++;
+	Num = iCurImage->SizeOfData / iCurImage->Bpc;
+	for (i = 0; i < Num; i++) {
+		if (!iGetNumber(&Value)) {
+			// We read less than what we should have...
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return NULL;
 		}
-	}
 
-	// If we read less than what we should have...
-	if (DataInc < Size) {
-		//ilCloseImage(iCurImage);
-		//ilSetCurImage(NULL);
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return NULL;
+		// We should set some kind of state flag that enables this
+		//Value *= (255 / Info->MaxColour);  // Scales to 0-255
+		if (iCurImage->Type == IL_UNSIGNED_SHORT)
+			((ILushort*)iCurImage->Data)[i] = (ILushort)Value;
+		else
+			iCurImage->Data[i] = (ILubyte)Value;
 	}
 
 	return iCurImage;
@@ -392,6 +363,11 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 {
 	ILuint Size;
 
+	if (Info->MaxColour > 255) {  // Two bytes per channel
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return NULL;
+	}
+
 	Size = Info->Width * Info->Height * Info->Bpp;
 
 	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
@@ -410,7 +386,6 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 	iseek(size-Size,IL_SEEK_SET);
 	*/
 	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
 		return NULL;
 	}
 	return iCurImage;
@@ -429,6 +404,8 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 	x = 0;
 	for (j = 0; j < iCurImage->SizeOfData;) {
 		CurrByte = igetc();
+		if (CurrByte == (ILuint)IL_EOF)
+			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
 			iCurImage->Data[j] = (CurrByte & m)?255:0;
 		}
@@ -552,7 +529,6 @@ ILboolean ilReadPam()
 
 	if (iread(iCurImage->Data, 1, Size) != Size)
 	{
-		ilCloseImage(iCurImage);
 		return IL_FALSE;
 	}
 
@@ -593,7 +569,7 @@ ILboolean iGetWord(ILboolean final)
 	{
 		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
 		{
-			if (WordPos >= MAX_BUFFER)  // We have hit the maximum line length.
+			if (WordPos >= MAX_BUFFER - 1)  // We have hit the maximum line length.
 				return IL_FALSE;
 
 			if (!isalnum(Current) && Current != '_') {
@@ -698,7 +674,7 @@ ILuint ilSavePnmL(void *Lump, ILuint Size)
 // Internal function used to save the Pnm.
 ILboolean iSavePnmInternal()
 {
-	ILuint		Bpp, MaxVal = UCHAR_MAX, i = 0, j, k;
+	ILuint		Bpp, MaxVal = UCHAR_MAX, i = 0, j, k, Num;
 	ILenum		Type = 0;
 	ILuint		LinePos = 0;  // Cannot exceed 70 for pnm's!
 	ILboolean	Binary;
@@ -764,22 +740,22 @@ ILboolean iSavePnmInternal()
 		case IL_PGM_ASCII:
 			Bpp = 1;
 			ilprintf("P2\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, iCurImage->Type);
 			break;
 		case IL_PGM_BINARY:
 			Bpp = 1;
 			ilprintf("P5\n");
-			TempImage = iConvertImage(iCurImage, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, iCurImage->Type);
 			break;
 		case IL_PPM_ASCII:
 			Bpp = 3;
 			ilprintf("P3\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		case IL_PPM_BINARY:
 			Bpp = 3;
 			ilprintf("P6\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
@@ -790,6 +766,7 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 
 	if (Bpp != TempImage->Bpp) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_INVALID_CONVERSION);
 		return IL_FALSE;
 	}
@@ -809,15 +786,11 @@ ILboolean iSavePnmInternal()
 	if (Type != IL_PBM_BINARY && Type != IL_PBM_ASCII)  // not needed for .pbm's (only 0 and 1)
 		ilprintf("%d\n", MaxVal);
 
-	while (i < TempImage->SizeOfPlane) {
+	Num = TempImage->SizeOfPlane / TempImage->Bpc;
+	while (i < Num) {
 		for (j = 0; j < Bpp; j++) {
 			if (Binary) {
-				if (Type == IL_PBM_BINARY) {
-					iputc((ILubyte)(TempData[i] > 127 ? 1 : 0));
-				}
-				else {
-					iputc(TempData[i]);
-				}
+				iputc(TempData[i]);
 			}
 			else {
 				if (TempImage->Type == IL_UNSIGNED_BYTE)
@@ -825,19 +798,18 @@ ILboolean iSavePnmInternal()
 				else  // IL_UNSIGNED_SHORT
 					k = *((ILushort*)TempData + i);
 				if (Type == IL_PBM_ASCII) {
-					LinePos += ilprintf("%d ", TempData[i] > 127 ? 1 : 0);
+					LinePos += ilprintf("%d ", k > 127 ? 1 : 0);
 				}
 				else {
-					LinePos += ilprintf("%d ", TempData[i]);
+					LinePos += ilprintf("%d ", k);
 				}
 			}
 
-			if (TempImage->Type == IL_UNSIGNED_SHORT)
-				i++;
 			i++;
 		}
 
-		if (LinePos > 65) {  // Just a good number =]
+		// Just a good number =]  (leaves room for the longest pixel)
+		if (LinePos > (TempImage->Type == IL_UNSIGNED_BYTE ? 65U : 50U)) {
 			ilprintf("\n");
 			LinePos = 0;
 		}
-- 
2.43.0


From f1b74013d8619c2ed6e41d2be1b411d0a053ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 071/121] fix: TIFF and PSD files are saved without touching
 the image, grey TIFFs and transparent PSDs load back, short or oversized
 parts are refused [C14]

---
 DevIL/src-IL/src/il_psd.cpp  | 155 +++++++++++++++++++++--------------
 DevIL/src-IL/src/il_tiff.cpp |  97 +++++++++++++---------
 2 files changed, 154 insertions(+), 98 deletions(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..872084a 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -251,7 +251,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
 	if (Head->Channels != 1) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -263,7 +263,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 
 	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
@@ -302,7 +302,7 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	ResourceSize = GetBigUInt();  // Read the 'image resources section'
 	Resources = (ILubyte*)ialloc(ResourceSize);
 	if (Resources == NULL) {
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 	if (iread(Resources, 1, ResourceSize) != ResourceSize)
 		goto cleanup_error;
@@ -399,7 +399,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 	else
 	{
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 
 	switch (Head->Depth)
@@ -412,7 +412,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
 		goto cleanup_error;
@@ -467,7 +467,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -479,7 +479,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
 		goto cleanup_error;
@@ -533,6 +533,8 @@ ILuint *GetCompChanLen(PSDHEAD *Head)
 	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
 	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
 	if (RleTable == NULL || ChanLen == NULL) {
+		ifree(RleTable);
+		ifree(ChanLen);
 		return NULL;
 	}
 
@@ -582,7 +584,7 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 		HeadByte = igetc();
 
 		if (HeadByte >= 0) {  //  && HeadByte <= 127
-			if (i + HeadByte > Size)
+			if (i + HeadByte + 1 > Size)
 			{
 				if (PreCache)
 					iUnCache();
@@ -653,6 +655,7 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	// @TODO: Add support for this in, though I have yet to run across a .psd
 	//	file that uses this.
 	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
+		ifree(Channel);
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
 	}
@@ -681,6 +684,10 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				}
 				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
 					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
+						if (c == NumChan) {  // The first one
+							iCurImage->Data[y + x + 3] = Channel[i];
+							continue;
+						}
 						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
 						float newVal = ubyte_to_float(Channel[i]);
 						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
@@ -717,6 +724,13 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				iCurImage->Bps /= 2;
 				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
 					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
+					 #ifndef WORDS_BIGENDIAN
+						iSwapUShort(ShortPtr+i);
+					 #endif
+						if (c == NumChan) {  // The first one
+							((ILushort*)iCurImage->Data)[y + x + 3] = ShortPtr[i];
+							continue;
+						}
 						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
 						float newVal = ushort_to_float(ShortPtr[i]);
 						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
@@ -728,6 +742,10 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	}
 	else {
 		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL) {
+			ifree(Channel);
+			return IL_FALSE;
+		}
 
 		Size = Head->Width * Head->Height;
 		for (c = 0; c < NumChan; c++) {
@@ -745,15 +763,9 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 			}
 		}
 
-		// Initialize the alpha channel to solid
+		// Accumulate any remaining channels into a single alpha channel
 		//@TODO: This needs to be changed for greyscale images.
 		if (Head->Channels >= 4) {
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp) {
-					iCurImage->Data[y + x + 3] = 255;
-				}
-			}
-					
 			for (; c < Head->Channels; c++) {
 				ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
 				if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
@@ -764,6 +776,10 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				i = 0;
 				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
 					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
+						if (c == NumChan) {  // The first one
+							iCurImage->Data[y + x + 3] = Channel[i];
+							continue;
+						}
 						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
 						float newVal = ubyte_to_float(Channel[i]);
 						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
@@ -796,7 +812,7 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 {
 	ILushort	ID;
 	ILubyte		NameLen;
-	ILuint		Size;
+	ILuint		Size, NameSize;
 
 	if (Resources == NULL) {
 		ilSetError(IL_INTERNAL_ERROR);
@@ -816,15 +832,17 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 
 		NameLen = *Resources++;
 		// NameLen + the byte it occupies must be padded to an even number, so NameLen must be odd.
-		NameLen = NameLen + (NameLen & 1 ? 0 : 1);
-		Resources += NameLen;
+		NameSize = NameLen + (NameLen & 1 ? 0 : 1);
+		if (4 + 2 + 1 + NameSize + 4 > ResourceSize)  // Not enough data left
+			return IL_TRUE;
+		Resources += NameSize;
 
 		// Get the resource data size.
 		Size = *((ILuint*)Resources);
 		BigUInt(&Size);
 		Resources += 4;
 
-		ResourceSize -= (4 + 2 + 1 + NameLen + 4);
+		ResourceSize -= (4 + 2 + 1 + NameSize + 4);
 
 		switch (ID)
 		{
@@ -833,6 +851,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
+				ifree(iCurImage->Profile);
+				iCurImage->ProfileSize = 0;
 				iCurImage->Profile = (ILubyte*)ialloc(Size);
 				if (iCurImage->Profile == NULL) {
 					return IL_FALSE;
@@ -847,6 +867,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 
 		if (Size & 1)  // Must be an even number.
 			Size++;
+		if (Size > ResourceSize)
+			break;
 		ResourceSize -= Size;
 		Resources += Size;
 	}
@@ -879,13 +901,15 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 			HeadByte = igetc();
 
 			if (HeadByte >= 0) {  //  && HeadByte <= 127
+				if (i + HeadByte + 1 > Head->Width * Head->Height)
+					return IL_FALSE;
 				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
 					return IL_FALSE;
 				i += HeadByte + 1;
 			}
 			if (HeadByte >= -127 && HeadByte <= -1) {
 				Run = igetc();
-				if (Run == IL_EOF)
+				if (Run == IL_EOF || i - HeadByte + 1 > Head->Width * Head->Height)
 					return IL_FALSE;
 				memset(Buffer + i, Run, -HeadByte + 1);
 				i += -HeadByte + 1;
@@ -957,8 +981,8 @@ ILboolean iSavePsdInternal()
 {
 	ILubyte		*Signature = (ILubyte*)"8BPS";
 	ILimage		*TempImage;
-	ILpal		*TempPal;
-	ILuint		c, i;
+	ILpal		*TempPal = NULL;
+	ILuint		c, i, Num;
 	ILubyte		*TempData;
 	ILushort	*ShortPtr;
 	ILenum		Format, Type;
@@ -971,15 +995,6 @@ ILboolean iSavePsdInternal()
 	Format = iCurImage->Format;
 	Type = iCurImage->Type;
 
-	// All of these comprise the actual signature.
-	iwrite(Signature, 1, 4);
-	SaveBigShort(1);
-	SaveBigInt(0);
-	SaveBigShort(0);
-
-	SaveBigShort(iCurImage->Bpp);
-	SaveBigInt(iCurImage->Height);
-	SaveBigInt(iCurImage->Width);
 	if (iCurImage->Bpc > 2)
 		Type = IL_UNSIGNED_SHORT;
 
@@ -988,6 +1003,12 @@ ILboolean iSavePsdInternal()
 	else if (iCurImage->Format == IL_BGRA)
 		Format = IL_RGBA;
 
+	// @TODO:  Put the other formats here.
+	if (Format != IL_COLOUR_INDEX && Format != IL_LUMINANCE && Format != IL_RGB && Format != IL_RGBA) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
 	if (Format != iCurImage->Format || Type != iCurImage->Type) {
 		TempImage = iConvertImage(iCurImage, Format, Type);
 		if (TempImage == NULL)
@@ -996,9 +1017,43 @@ ILboolean iSavePsdInternal()
 	else {
 		TempImage = iCurImage;
 	}
+
+	if (TempImage->Format == IL_COLOUR_INDEX) {
+		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+	}
+
+	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
+		TempData = iGetFlipped(TempImage);
+		if (TempData == NULL) {
+			if (TempPal != NULL) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+	}
+	else {
+		TempData = TempImage->Data;
+	}
+
+	// All of these comprise the actual signature.
+	iwrite(Signature, 1, 4);
+	SaveBigShort(1);
+	SaveBigInt(0);
+	SaveBigShort(0);
+
+	SaveBigShort(TempImage->Bpp);
+	SaveBigInt(TempImage->Height);
+	SaveBigInt(TempImage->Width);
 	SaveBigShort((ILushort)(TempImage->Bpc * 8));
 
-	// @TODO:  Put the other formats here.
 	switch (TempImage->Format)
 	{
 		case IL_COLOUR_INDEX:
@@ -1007,31 +1062,23 @@ ILboolean iSavePsdInternal()
 		case IL_LUMINANCE:
 			SaveBigShort(1);
 			break;
-		case IL_RGB:
-		case IL_RGBA:
+		default:  // IL_RGB or IL_RGBA
 			SaveBigShort(3);
 			break;
-		default:
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
 	}
 
-	if (TempImage->Format == IL_COLOUR_INDEX) {
-		// @TODO: We're currently making a potentially fatal assumption that
-		//	iConvertImage was not called if the format is IL_COLOUR_INDEX.
-		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-		if (TempPal == NULL)
-			return IL_FALSE;
+	if (TempPal != NULL) {
 		SaveBigInt(768);
 
-		// Have to save the palette in a planar format.
+		// Have to save the palette in a planar format, always with 256 entries.
 		for (c = 0; c < 3; c++) {
-			for (i = c; i < TempPal->PalSize; i += 3) {
-				iputc(TempPal->Palette[i]);
+			for (i = c; i < 768; i += 3) {
+				iputc(i < TempPal->PalSize ? TempPal->Palette[i] : 0);
 			}
 		}
 
 		ifree(TempPal->Palette);
+		ifree(TempPal);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
@@ -1043,17 +1090,6 @@ ILboolean iSavePsdInternal()
 
 	// @TODO:  Add RLE compression.
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
-		TempData = iGetFlipped(TempImage);
-		if (TempData == NULL) {
-			ilCloseImage(TempImage);
-			return IL_FALSE;
-		}
-	}
-	else {
-		TempData = TempImage->Data;
-	}
-
 	if (TempImage->Bpc == 1) {
 		for (c = 0; c < TempImage->Bpp; c++) {
 			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
@@ -1063,13 +1099,12 @@ ILboolean iSavePsdInternal()
 	}
 	else {  // TempImage->Bpc == 2
 		ShortPtr = (ILushort*)TempData;
-		TempImage->SizeOfPlane /= 2;
+		Num = TempImage->SizeOfPlane / 2;
 		for (c = 0; c < TempImage->Bpp; c++) {
-			for (i = c; i < TempImage->SizeOfPlane; i += TempImage->Bpp) {
+			for (i = c; i < Num; i += TempImage->Bpp) {
 				SaveBigUShort(ShortPtr[i]);
 			}
 		}
-		TempImage->SizeOfPlane *= 2;
 	}
 
 	if (TempData != TempImage->Data)
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..ce066f8 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -369,7 +369,7 @@ ILboolean iLoadTiffInternal()
 				Image = iCurImage;
 			}
 			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
+				Image->Next = ilNewImage(w, h, 1, 1, bitspersample == 16 ? 2 : 1);
 				if (Image->Next == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
@@ -383,12 +383,23 @@ ILboolean iLoadTiffInternal()
 				ILubyte *entry;
 				uint32 count = 1 << bitspersample, j;
 		
-				TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue);
+				if (!TIFFGetField(tif, TIFFTAG_COLORMAP, &red, &green, &blue)) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 
 				Image->Format = IL_COLOUR_INDEX;
 				Image->Pal.PalSize = (count)*3;
 				Image->Pal.PalType = IL_PAL_RGB24;
 				Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
+				if (Image->Pal.Palette == NULL) {
+					Image->Pal.PalSize = 0;
+					Image->Pal.PalType = IL_PAL_NONE;
+					Image->Format = IL_LUMINANCE;
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 				entry = Image->Pal.Palette;
 				for (j = 0; j < count; ++j) {
 					entry[0] = (ILubyte)(red[j] >> 8);
@@ -399,10 +410,16 @@ ILboolean iLoadTiffInternal()
 				}
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			if (rowsperstrip == 0 || rowsperstrip > h)
+				rowsperstrip = h;
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			if (bitspersample == 8 || bitspersample == 16) {
 				ILubyte *dat = Image->Data;
@@ -431,7 +448,7 @@ ILboolean iLoadTiffInternal()
 							//making up a pixel can be inverted independently
 							for (k = 0; k < Image->Bps; ++k)
 								dat[k] = ~strip[t2 + k];
-							dat += w;
+							dat += Image->Bps;
 						}
 					}
 					else
@@ -514,7 +531,7 @@ ILboolean iLoadTiffInternal()
 				Image = iCurImage;
 			}
 			else {
-				Image->Next = ilNewImage(w, h, 1, 1, 1);
+				Image->Next = ilNewImage(w, h, 1, 3, bitspersample == 16 ? 2 : 1);
 				if(Image->Next == NULL) {
 					TIFFClose(tif);
 					return IL_FALSE;
@@ -522,10 +539,16 @@ ILboolean iLoadTiffInternal()
 				Image = Image->Next;
 			}
 
-			TIFFGetField(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			TIFFGetFieldDefaulted(tif, TIFFTAG_ROWSPERSTRIP, &rowsperstrip);
+			if (rowsperstrip == 0 || rowsperstrip > h)
+				rowsperstrip = h;
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			dat = Image->Data;
 			for (y = 0; y < h; y += rowsperstrip) {
@@ -927,15 +950,13 @@ ILuint ilSaveTiffL(void *Lump, ILuint Size)
 // Internal function used to save the Tiff.
 ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 {
-	ILenum	Format;
 	ILenum	Compression;
 	ILuint	ixLine;
 	TIFF	*File;
 	char	Description[512];
 	ILimage *TempImage;
 	const char	*str;
-	ILboolean SwapColors;
-	ILubyte *OldData;
+	ILubyte *Data;
 
 	if(iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -965,10 +986,27 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 			return IL_FALSE;
 		}
 	}
+	else if (iCurImage->Format == IL_BGR || iCurImage->Format == IL_BGRA || iCurImage->Format == IL_LUMINANCE_ALPHA) {
+		TempImage = iConvertImage(iCurImage, iCurImage->Format == IL_BGR ? IL_RGB : IL_RGBA, iCurImage->Type);
+		if (TempImage == NULL) {
+			return IL_FALSE;
+		}
+	}
 	else {
 		TempImage = iCurImage;
 	}
 
+	// Orientation flag is not always supported, so the rows are always written from the top down (see below).
+	Data = TempImage->Data;
+	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
+		Data = iGetFlipped(TempImage);
+		if (Data == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
+	}
+
 	/*#ifndef _UNICODE
 		File = TIFFOpen(Filename, "w");
 	#else
@@ -979,6 +1017,10 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	File = iTIFFOpen((char*)"w");
 	if (File == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		if (Data != TempImage->Data)
+			ifree(Data);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return IL_FALSE;
 	}
 
@@ -991,7 +1033,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	TIFFSetField(File, TIFFTAG_IMAGEWIDTH, TempImage->Width);
 	TIFFSetField(File, TIFFTAG_IMAGELENGTH, TempImage->Height);
 	TIFFSetField(File, TIFFTAG_COMPRESSION, Compression);
-	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, PHOTOMETRIC_RGB);
+	TIFFSetField(File, TIFFTAG_PHOTOMETRIC, TempImage->Bpp == 1 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB);
 	TIFFSetField(File, TIFFTAG_BITSPERSAMPLE, TempImage->Bpc << 3);
 	TIFFSetField(File, TIFFTAG_SAMPLESPERPIXEL, TempImage->Bpp);
 	if (TempImage->Bpp == 4) //TODO: LUMINANCE, LUMINANCE_ALPHA
@@ -1011,7 +1053,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 
 
 	str = iGetString(IL_TIF_AUTHNAME_STRING);
-	if (iGetString(IL_TIF_AUTHNAME_STRING)) {
+	if (str) {
 		TIFFSetField(File, TIFFTAG_ARTIST, str);
 		ifree(str);
 	}
@@ -1022,7 +1064,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		ifree(str);
 	}
 
-	str = iGetString(IL_TIF_HOSTCOMPUTER_STRING);
+	str = iGetString(IL_TIF_DESCRIPTION_STRING);
 	if (str) {
 		TIFFSetField(File, TIFFTAG_IMAGEDESCRIPTION, str);
 		ifree(str);
@@ -1035,47 +1077,26 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// Orientation flag is not always supported (Photoshop, ...), orient the image data 
 	// and set it always to normal view
 	TIFFSetField(File, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
-		ILubyte* Data = iGetFlipped(TempImage);
-		OldData = TempImage->Data;
-		TempImage->Data = Data;
-	}
-	else
-		OldData = TempImage->Data;
 
 	/*
 	 TIFFSetField(File, TIFFTAG_ORIENTATION,
 				  TempImage->Origin == IL_ORIGIN_UPPER_LEFT ? ORIENTATION_TOPLEFT : ORIENTATION_BOTLEFT);
 	 */
 
-	Format = TempImage->Format;
-	SwapColors = (Format == IL_BGR || Format == IL_BGRA);
-	if (SwapColors)
- 		ilSwapColours();
-
 	for (ixLine = 0; ixLine < TempImage->Height; ++ixLine) {
-		if (TIFFWriteScanline(File, TempImage->Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
+		if (TIFFWriteScanline(File, Data + ixLine * TempImage->Bps, ixLine, 0) < 0) {
 			TIFFClose(File);
 			ilSetError(IL_LIB_TIFF_ERROR);
-			if (SwapColors)
-				ilSwapColours();
-			if (TempImage->Data != OldData) {
-				ifree( TempImage->Data );
-				TempImage->Data = OldData;
-			}
+			if (Data != TempImage->Data)
+				ifree(Data);
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
 
-	if (SwapColors)
- 		ilSwapColours();
-
-	if (TempImage->Data != OldData) {
-		ifree(TempImage->Data);
-		TempImage->Data = OldData;
-	}
+	if (Data != TempImage->Data)
+		ifree(Data);
 
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
-- 
2.43.0


From 092b514783fbf1ddc6083d13506ef37768367493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 072/121] fix: RAW images whose header is short or ill-formed
 are refused, two-channel ones load [C14]

---
 DevIL/src-IL/src/il_raw.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 881fdd3..8dbd984 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -70,24 +70,32 @@ ILboolean ilLoadRawL(const void *Lump, ILuint Size)
 // Internal function to load a raw image
 ILboolean iLoadRawInternal()
 {
+	ILuint	Width, Height, Depth;
+	ILubyte	Bpp, Bpc;
+
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 
-	iCurImage->Width = GetLittleUInt();
+	Width = GetLittleUInt();
 
-	iCurImage->Height = GetLittleUInt();
+	Height = GetLittleUInt();
 
-	iCurImage->Depth = GetLittleUInt();
+	Depth = GetLittleUInt();
 
-	iCurImage->Bpp = (ILubyte)igetc();
+	Bpp = (ILubyte)igetc();
 
-	if (iread(&iCurImage->Bpc, 1, 1) != 1)
+	if (iread(&Bpc, 1, 1) != 1)
 		return IL_FALSE;
 
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->Bpp, 0, ilGetTypeBpc(iCurImage->Bpc), NULL)) {
+	if (ilGetFormatBpp(Bpp) == 0 || ilGetTypeBpc(Bpc) == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
+	if (!ilTexImage(Width, Height, Depth, Bpp, ilGetFormatBpp(Bpp), ilGetTypeBpc(Bpc), NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -103,13 +111,6 @@ ILboolean iLoadRawInternal()
 		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
-- 
2.43.0


From 6d9f541efa4d7c681be73ae330d3361cc9d59c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 073/121] fix: run-length coded TGA and SGI images are coded
 correctly and inside of the buffer; saved TIFF and SGI files end where they
 say [C14/C15]

---
 DevIL/src-IL/src/il_rle.cpp   |  1 -
 DevIL/src-IL/src/il_sgi.cpp   |  4 +++-
 DevIL/src-IL/src/il_targa.cpp |  2 +-
 DevIL/src-IL/src/il_tiff.cpp  | 28 ++++++++++++++++++----------
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..edaa46b 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 1a9deaa..48ac215 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -703,7 +703,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 	ILuint	c, i, y, j;
 	ILubyte	*ScanLine = NULL, *CompLine = NULL;
 	ILuint	*StartTable = NULL, *LenTable = NULL;
-	ILuint	TableOff, DataOff = 0;
+	ILuint	TableOff, DataOff = 0, EndOff;
 
 	ScanLine = (ILubyte*)ialloc(w);
 	CompLine = (ILubyte*)ialloc(w * 2 + 1);  // Absolute worst case.
@@ -735,6 +735,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 		}
 	}
 
+	EndOff = itellw();
 	iseekw(TableOff, IL_SEEK_SET);
 
 	j = h * numChannels;
@@ -749,6 +750,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
+	iseekw(EndOff, IL_SEEK_SET);
 
 	ifree(ScanLine);
 	ifree(CompLine);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 2f45cf0..045cff2 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -738,7 +738,7 @@ ILboolean iSaveTargaInternal()
 	Rle = NULL;
 	RleLen = 0;
 	if (TempData != NULL && Compress)
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		Rle = (ILubyte*)ialloc(TempImage->SizeOfData * 2);	// max
 	if (TempData == NULL || (Compress && Rle == NULL)) {
 		ifree(ID);
 		ifree(AuthName);
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index ce066f8..a33e62d 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -759,6 +759,9 @@ _tiffFileReadProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 //  I have seen libtiff call this is at the beginning of writing a tiff, before
 //  anything is ever even written!  Also, we have to return 0, no matter what tSize
 //  is.  If we return tSize like would be expected, then TIFFClientOpen fails.
+// Where the data written ends: what is written to may be larger.
+static ILuint TiffEnd;
+
 static tsize_t 
 _tiffFileReadProcW(thandle_t fd, tdata_t pData, tsize_t tSize)
 {
@@ -771,8 +774,12 @@ _tiffFileReadProcW(thandle_t fd, tdata_t pData, tsize_t tSize)
 static tsize_t 
 _tiffFileWriteProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 {
+	tsize_t Written;
 	fd;
-	return iwrite(pData, 1, (ILuint)tSize);
+	Written = iwrite(pData, 1, (ILuint)tSize);
+	if (itellw() > TiffEnd)
+		TiffEnd = itellw();
+	return Written;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -799,7 +806,10 @@ _tiffFileSeekProcW(thandle_t fd, toff_t tOff, int whence)
 	if (tOff == 0xFFFFFFFF)
 		return 0xFFFFFFFF;
 
-	iseekw((ILint)tOff, whence);
+	if (whence == SEEK_END)
+		iseekw((ILint)(TiffEnd + tOff), IL_SEEK_SET);
+	else
+		iseekw((ILint)tOff, whence);
 	return itellw();
 	//return tOff;
 }
@@ -834,13 +844,8 @@ _tiffFileSizeProc(thandle_t fd)
 static toff_t
 _tiffFileSizeProcW(thandle_t fd)
 {
-	ILint Offset, Size;
-	Offset = itellw();
-	iseekw(0, IL_SEEK_END);
-	Size = itellw();
-	iseekw(Offset, IL_SEEK_SET);
-
-	return Size;
+	fd;
+	return TiffEnd;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -873,13 +878,15 @@ TIFF *iTIFFOpen(char *Mode)
 {
 	TIFF *tif;
 
-	if (Mode[0] == 'w')
+	if (Mode[0] == 'w') {
+		TiffEnd = 0;
 		tif = TIFFClientOpen("TIFFMemFile", Mode,
 							NULL,
 							_tiffFileReadProcW, _tiffFileWriteProc,
 							_tiffFileSeekProcW, _tiffFileCloseProc,
 							_tiffFileSizeProcW, _tiffDummyMapProc,
 							_tiffDummyUnmapProc);
+	}
 	else
 		tif = TIFFClientOpen("TIFFMemFile", Mode,
 							NULL,
@@ -1102,6 +1109,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		ilCloseImage(TempImage);
 
 	TIFFClose(File);
+	iseekw(TiffEnd, IL_SEEK_SET);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 5852db79f1439624ac9bcccd1fa2875f838c652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 074/121] fix: the size announced for TGA and for failing saves
 is right; TGA and TIFF saved to memory report their size, keep inside of it
 and equal the file [C15]

---
 DevIL/src-IL/src/il_exr.cpp   |  3 ++-
 DevIL/src-IL/src/il_size.cpp  | 37 ++++++++++++++++++-----------------
 DevIL/src-IL/src/il_targa.cpp |  3 ++-
 DevIL/src-IL/src/il_tiff.cpp  | 33 +++++++++++++++++++++++++++----
 4 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/src/il_exr.cpp b/DevIL/src-IL/src/il_exr.cpp
index bbb3978..8cbb60f 100644
--- a/DevIL/src-IL/src/il_exr.cpp
+++ b/DevIL/src-IL/src/il_exr.cpp
@@ -372,8 +372,9 @@ ILuint ilSaveExrF(ILHANDLE File)
 //! Writes a Exr to a memory "lump"
 ILuint ilSaveExrL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveExrInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 28a069a..c15126e 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -79,6 +79,8 @@ ILint ILAPIENTRY iSizeWrite(const void *Buffer, ILuint Size, ILuint Number)
 //  A return value of 0 is an error.
 ILuint ilDetermineSize(ILenum Type)
 {
+	ILuint Saved = 0;
+
 	MaxPos = CurPos = 0;
 	iSetOutputFake();  // Sets iputc, iwrite, etc. to functions above.
 
@@ -86,98 +88,97 @@ ILuint ilDetermineSize(ILenum Type)
 	{
 		#ifndef IL_NO_BMP
 		case IL_BMP:
-			ilSaveBmpL(NULL, 0);
+			Saved = ilSaveBmpL(NULL, 0);
 			break;
 		#endif//IL_NO_BMP
 
 		#ifndef IL_NO_DDS
 		case IL_DDS:
-			ilSaveDdsL(NULL, 0);
+			Saved = ilSaveDdsL(NULL, 0);
 			break;
 		#endif//IL_NO_DDS
 
 		#ifndef IL_NO_EXR
 		case IL_EXR:
-			ilSaveExrL(NULL, 0);
+			Saved = ilSaveExrL(NULL, 0);
 			break;
 		#endif//IL_NO_EXR
 
 		#ifndef IL_NO_HDR
 		case IL_HDR:
-			ilSaveHdrL(NULL, 0);
+			Saved = ilSaveHdrL(NULL, 0);
 			break;
 		#endif//IL_NO_HDR
 
 		#ifndef IL_NO_JP2
 		case IL_JP2:
-			ilSaveJp2L(NULL, 0);
+			Saved = ilSaveJp2L(NULL, 0);
 			break;
 		#endif//IL_NO_JP2
 
 		#ifndef IL_NO_JPG
 		case IL_JPG:
-			ilSaveJpegL(NULL, 0);
+			Saved = ilSaveJpegL(NULL, 0);
 			break;
 		#endif//IL_NO_JPG
 
 		#ifndef IL_NO_PCX
 		case IL_PCX:
-			ilSavePcxL(NULL, 0);
+			Saved = ilSavePcxL(NULL, 0);
 			break;
 		#endif//IL_NO_PCX
 
 		#ifndef IL_NO_PNG
 		case IL_PNG:
-			ilSavePngL(NULL, 0);
+			Saved = ilSavePngL(NULL, 0);
 			break;
 		#endif//IL_NO_PNG
 
 		#ifndef IL_NO_PNM
 		case IL_PNM:
-			ilSavePnmL(NULL, 0);
+			Saved = ilSavePnmL(NULL, 0);
 			break;
 		#endif//IL_NO_PNM
 
 		#ifndef IL_NO_PSD
 		case IL_PSD:
-			ilSavePsdL(NULL, 0);
+			Saved = ilSavePsdL(NULL, 0);
 			break;
 		#endif//IL_NO_PSD
 
 		#ifndef IL_NO_RAW
 		case IL_RAW:
-			ilSaveRawL(NULL, 0);
+			Saved = ilSaveRawL(NULL, 0);
 			break;
 		#endif//IL_NO_RAW
 
 		#ifndef IL_NO_SGI
 		case IL_SGI:
-			ilSaveSgiL(NULL, 0);
+			Saved = ilSaveSgiL(NULL, 0);
 			break;
 		#endif//IL_NO_SGI
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			Saved = ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
 		#ifndef IL_NO_TIF
 		case IL_TIF:
-			ilSaveTiffL(NULL, 0);
+			Saved = ilSaveTiffL(NULL, 0);
 			break;
 		#endif//IL_NO_TIF
 
 		#ifndef IL_NO_VTF
 		case IL_VTF:
-			ilSaveVtfL(NULL, 0);
+			Saved = ilSaveVtfL(NULL, 0);
 			break;
 		#endif//IL_NO_VTF
 
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
-			ilSaveWbmpL(NULL, 0);
+			Saved = ilSaveWbmpL(NULL, 0);
 			break;
 		#endif//IL_NO_WBMP
 
@@ -187,5 +188,5 @@ ILuint ilDetermineSize(ILenum Type)
 			return 0;
 	}
 
-	return MaxPos;
+	return Saved ? MaxPos : 0;
 }
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 045cff2..943b167 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -581,8 +581,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index a33e62d..b0f15c2 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -761,6 +761,7 @@ _tiffFileReadProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 //  is.  If we return tSize like would be expected, then TIFFClientOpen fails.
 // Where the data written ends: what is written to may be larger.
 static ILuint TiffEnd;
+static ILboolean TiffFailed;
 
 static tsize_t 
 _tiffFileReadProcW(thandle_t fd, tdata_t pData, tsize_t tSize)
@@ -777,6 +778,8 @@ _tiffFileWriteProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 	tsize_t Written;
 	fd;
 	Written = iwrite(pData, 1, (ILuint)tSize);
+	if (Written != tSize)
+		TiffFailed = IL_TRUE;
 	if (itellw() > TiffEnd)
 		TiffEnd = itellw();
 	return Written;
@@ -807,9 +810,25 @@ _tiffFileSeekProcW(thandle_t fd, toff_t tOff, int whence)
 		return 0xFFFFFFFF;
 
 	if (whence == SEEK_END)
-		iseekw((ILint)(TiffEnd + tOff), IL_SEEK_SET);
-	else
-		iseekw((ILint)tOff, whence);
+		tOff += TiffEnd;
+	else if (whence == SEEK_CUR)
+		tOff += itellw();
+
+	// libtiff leaves gaps to align what it writes.
+	if (tOff > TiffEnd) {
+		iseekw(TiffEnd, IL_SEEK_SET);
+		for (; tOff > TiffEnd; TiffEnd++) {
+			if (iputc(0) == IL_EOF) {
+				TiffFailed = IL_TRUE;
+				return (toff_t)-1;
+			}
+		}
+	}
+
+	if (iseekw((ILint)tOff, IL_SEEK_SET) != 0) {
+		TiffFailed = IL_TRUE;
+		return (toff_t)-1;
+	}
 	return itellw();
 	//return tOff;
 }
@@ -880,6 +899,7 @@ TIFF *iTIFFOpen(char *Mode)
 
 	if (Mode[0] == 'w') {
 		TiffEnd = 0;
+		TiffFailed = IL_FALSE;
 		tif = TIFFClientOpen("TIFFMemFile", Mode,
 							NULL,
 							_tiffFileReadProcW, _tiffFileWriteProc,
@@ -944,8 +964,9 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
@@ -1110,6 +1131,10 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 
 	TIFFClose(File);
 	iseekw(TiffEnd, IL_SEEK_SET);
+	if (TiffFailed) {
+		ilSetError(IL_FILE_WRITE_ERROR);
+		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 }
-- 
2.43.0


From df6e34feaa1912e6a93cd605daf57d13e8bb9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 075/121] fix: raw pixel data is saved to a file opened for
 writing, and loaded without touching the image if there is too little of it
 [C28]

---
 DevIL/src-IL/src/il_rawdata.cpp | 60 +++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..c3ad48a 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -12,6 +12,7 @@
 
 
 #include "il_internal.h"
+#include <limits.h>
 //#ifndef IL_NO_DATA
 
 
@@ -69,26 +70,48 @@ ILboolean ILAPIENTRY ilLoadDataL(void *Lump, ILuint Size, ILuint Width, ILuint H
 // Internal function to load a raw data image
 ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp)
 {
+	ILuint	Size;
+	ILubyte	*Data;
+	ILenum	Format;
+
 	if (iCurImage == NULL || ((Bpp != 1) && (Bpp != 3) && (Bpp != 4))) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (!ilTexImage(Width, Height, Depth, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
+	// As in ilTexImage
+	if (Width  == 0) Width = 1;
+	if (Height == 0) Height = 1;
+	if (Depth  == 0) Depth = 1;
+	if (Width > UINT_MAX / Bpp || Height > UINT_MAX / (Width * Bpp) || Depth > UINT_MAX / (Width * Bpp * Height)) {
+		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
+	Size = Width * Height * Depth * Bpp;
 
-	// Tries to read the correct amount of data
-	if (iread(iCurImage->Data, Width * Height * Depth * Bpp, 1) != 1)
+	// Tries to read the correct amount of data before the image is touched.
+	Data = (ILubyte*)ialloc(Size);
+	if (Data == NULL)
+		return IL_FALSE;
+	if (iread(Data, 1, Size) != Size) {
+		ifree(Data);
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
+	if (Bpp == 1)
+		Format = IL_LUMINANCE;
+	else if (Bpp == 3)
+		Format = IL_RGB;
 	else  // 4
-		iCurImage->Format = IL_RGBA;
+		Format = IL_RGBA;
+
+	if (!ilTexImage(Width, Height, Depth, Bpp, Format, IL_UNSIGNED_BYTE, Data)) {
+		ifree(Data);
+		return IL_FALSE;
+	}
+	ifree(Data);
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return ilFixImage();
 }
@@ -97,23 +120,32 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 //! Save the current image to FileName as raw data
 ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 {
-	ILHANDLE DataFile;
+	ILHANDLE	DataFile;
+	ILboolean	Written;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iSetOutputFile(DataFile);
+	Written = iwrite(iCurImage->Data, 1, iCurImage->SizeOfData) == (ILint)iCurImage->SizeOfData;
+	iclosew(DataFile);
 
-	return IL_TRUE;
+	return Written;
 }
 
 
-- 
2.43.0


From e4755dd67be33be3570f4400c1aac04cb2e49d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 076/121] fix: images load the same from memory (WBMP, SUN) and
 every time (no undefined pixels), failed loads leave a sound image,
 normalising converts format and type at once [C12/C20]

---
 DevIL/src-IL/src/il_bits.cpp    | 19 +++++------
 DevIL/src-IL/src/il_convert.cpp | 35 +++++++++----------
 DevIL/src-IL/src/il_devil.cpp   |  3 ++
 DevIL/src-IL/src/il_io.cpp      | 60 ++++++++++++++++++++++++---------
 DevIL/src-IL/src/il_pnm.cpp     | 16 ++++-----
 DevIL/src-IL/src/il_sun.cpp     | 55 +++++++++++++++++++++++-------
 DevIL/src-IL/src/il_wbmp.cpp    | 10 ++++--
 7 files changed, 126 insertions(+), 72 deletions(-)

diff --git a/DevIL/src-IL/src/il_bits.cpp b/DevIL/src-IL/src/il_bits.cpp
index 3cf717f..6359aa1 100644
--- a/DevIL/src-IL/src/il_bits.cpp
+++ b/DevIL/src-IL/src/il_bits.cpp
@@ -40,14 +40,13 @@ BITFILE *bfile(ILHANDLE File)
 {
 	BITFILE *ToReturn = NULL;
 
-	if (File != NULL) {
-		ToReturn = (BITFILE*)ialloc(sizeof(BITFILE));
-		if (ToReturn != NULL) {
-			ToReturn->File = File;
-			ToReturn->BitPos = itell() << 3;
-			ToReturn->ByteBitOff = 8;
-			ToReturn->Buff = 0;
-		}
+	// File can be NULL, when reading from a memory lump.
+	ToReturn = (BITFILE*)ialloc(sizeof(BITFILE));
+	if (ToReturn != NULL) {
+		ToReturn->File = File;
+		ToReturn->BitPos = itell() << 3;
+		ToReturn->ByteBitOff = 8;
+		ToReturn->Buff = 0;
 	}
 
 	return ToReturn;
@@ -57,7 +56,7 @@ BITFILE *bfile(ILHANDLE File)
 // Closes an open BITFILE and frees memory for it.
 ILint bclose(BITFILE *BitFile)
 {
-	if (BitFile == NULL || BitFile->File == NULL)
+	if (BitFile == NULL)
 		return IL_EOF;
 
 	// Removed 01-26-2008.  The file will get closed later by
@@ -81,7 +80,7 @@ ILint bseek(BITFILE *BitFile, ILuint Offset, ILuint Mode)
 {
 	ILint KeepPos, Len;
 
-	if (BitFile == NULL || BitFile->File == NULL)
+	if (BitFile == NULL)
 		return 1;
 
 	switch (Mode)
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index bd8a270..b43c677 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -1006,6 +1006,8 @@ ILboolean ilRemoveAlpha()
 
 ILboolean ilFixCur()
 {
+	ILenum Format, Type;
+
 	if (ilIsEnabled(IL_ORIGIN_SET)) {
 		if ((ILenum)ilGetInteger(IL_ORIGIN_MODE) != iCurImage->Origin) {
 			if (!ilFlipImage()) {
@@ -1014,26 +1016,19 @@ ILboolean ilFixCur()
 		}
 	}
 
-	if (ilIsEnabled(IL_TYPE_SET)) {
-		if ((ILenum)ilGetInteger(IL_TYPE_MODE) != iCurImage->Type) {
-			if (!ilConvertImage(iCurImage->Format, ilGetInteger(IL_TYPE_MODE))) {
-				return IL_FALSE;
-			}
-		}
-	}
-	if (ilIsEnabled(IL_FORMAT_SET)) {
-		if ((ILenum)ilGetInteger(IL_FORMAT_MODE) != iCurImage->Format) {
-			if (!ilConvertImage(ilGetInteger(IL_FORMAT_MODE), iCurImage->Type)) {
-				return IL_FALSE;
-			}
-		}
-	}
-
-	if (iCurImage->Format == IL_COLOUR_INDEX) {
-		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			if (!ilConvertImage(IL_BGR, IL_UNSIGNED_BYTE)) {
-				return IL_FALSE;
-			}
+	Format = iCurImage->Format;
+	Type = iCurImage->Type;
+	if (ilIsEnabled(IL_TYPE_SET))
+		Type = ilGetInteger(IL_TYPE_MODE);
+	if (ilIsEnabled(IL_FORMAT_SET))
+		Format = ilGetInteger(IL_FORMAT_MODE);
+	// Indices always are single bytes.
+	if (Format == IL_COLOUR_INDEX && (ilGetBoolean(IL_CONV_PAL) == IL_TRUE || ilGetBpcType(Type) != 1))
+		Format = IL_BGR;
+
+	if (Format != iCurImage->Format || Type != iCurImage->Type) {
+		if (!ilConvertImage(Format, Type)) {
+			return IL_FALSE;
 		}
 	}
 /*	Swap Colors on Big Endian !!!!!
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 8c1b166..ec76cbb 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -71,6 +71,9 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 	if (Data != NULL) {
 		memcpy(Image->Data, Data, Image->SizeOfData);
 	}
+	else {
+		imemclear(Image->Data, Image->SizeOfData);
+	}
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 460390c..b566ba8 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1000,6 +1000,46 @@ ILboolean ILAPIENTRY ilIsValidL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
+// Checks that the fields of a loaded image and of all of its sub-images fit together.
+static ILboolean iImageSound(const ILimage *Image)
+{
+	ILuint PalBpp;
+
+	for (; Image != NULL; Image = Image->Next) {
+		PalBpp = ilGetBppPal(Image->Pal.PalType);
+		if (Image->Data == NULL || Image->Width == 0 || Image->Height == 0 || Image->Depth == 0)
+			return IL_FALSE;
+		if (Image->Bpp == 0 || Image->Bpp != ilGetBppFormat(Image->Format) || Image->Bpc == 0 || Image->Bpc != ilGetBpcType(Image->Type))
+			return IL_FALSE;
+		if (Image->Bps != Image->Width * Image->Bpp * Image->Bpc || Image->SizeOfPlane != Image->Bps * Image->Height ||
+			Image->SizeOfData != Image->SizeOfPlane * Image->Depth)
+			return IL_FALSE;
+		if (Image->Origin != IL_ORIGIN_LOWER_LEFT && Image->Origin != IL_ORIGIN_UPPER_LEFT)
+			return IL_FALSE;
+		if (Image->Pal.PalSize != 0 && (Image->Pal.Palette == NULL || PalBpp == 0))
+			return IL_FALSE;
+		if (!iImageSound(Image->Mipmaps) || !iImageSound(Image->Layers) || !iImageSound(Image->Faces))
+			return IL_FALSE;
+	}
+
+	return IL_TRUE;
+}
+
+
+// Ends a load:  every failure is reported, and never leaves a half-made image behind.
+static ILboolean iLoadDone(ILboolean bRet, ILuint Errors)
+{
+	if (iCurImage != NULL && !iImageSound(iCurImage)) {
+		bRet = IL_FALSE;
+		ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+	}
+	if (!bRet && iErrorCount == Errors)
+		ilSetError(IL_INVALID_FILE_HEADER);
+
+	return bRet;
+}
+
+
 static ILboolean iLoadType(ILenum Type, ILconst_string FileName)
 {
 	ILboolean	bRet;
@@ -1325,10 +1365,7 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 	ILuint		Errors = iErrorCount;
 	ILboolean	bRet = iLoadType(Type, FileName);
 
-	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
-		ilSetError(IL_INVALID_FILE_HEADER);
-
-	return bRet;
+	return iLoadDone(bRet, Errors);
 }
 
 
@@ -1601,10 +1638,7 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	ILuint		Errors = iErrorCount;
 	ILboolean	bRet = iLoadTypeF(Type, File);
 
-	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
-		ilSetError(IL_INVALID_FILE_HEADER);
-
-	return bRet;
+	return iLoadDone(bRet, Errors);
 }
 
 
@@ -1876,10 +1910,7 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	ILuint		Errors = iErrorCount;
 	ILboolean	bRet = iLoadTypeL(Type, Lump, Size);
 
-	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
-		ilSetError(IL_INVALID_FILE_HEADER);
-
-	return bRet;
+	return iLoadDone(bRet, Errors);
 }
 
 
@@ -2289,10 +2320,7 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 	ILuint		Errors = iErrorCount;
 	ILboolean	bRet = iLoadByName(FileName);
 
-	if (!bRet && iErrorCount == Errors)  // Every failure is reported.
-		ilSetError(IL_INVALID_FILE_HEADER);
-
-	return bRet;
+	return iLoadDone(bRet, Errors);
 }
 
 
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index 8fd20db..2e1a847 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -370,7 +370,7 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 
 	Size = Info->Width * Info->Height * Info->Bpp;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), Info->Bpp == 1 ? IL_LUMINANCE : IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -396,7 +396,7 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 {
 	ILuint	m, j, x, CurrByte;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), Info->Bpp == 1 ? IL_LUMINANCE : IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -478,10 +478,9 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_LUMINANCE, Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE;
 			break;
 
 		case PAM_GRAY_ALPHA:
@@ -490,10 +489,9 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_LUMINANCE_ALPHA, Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_LUMINANCE_ALPHA;
 			break;
 
 		case PAM_RGB:
@@ -502,10 +500,9 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_RGB, Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGB;
 			break;
 
 		case PAM_RGB_ALPHA:
@@ -514,10 +511,9 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, IL_RGBA, Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
-			iCurImage->Format = IL_RGBA;
 			break;
 
 		default:
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..4abbb78 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -217,10 +217,6 @@ ILboolean iLoadSunInternal(void)
 	switch (Header.Depth)
 	{
 		case 1:  //@TODO: Find a file to test this on.
-			File = bfile(iGetFile());
-			if (File == NULL)
-				return IL_FALSE;
-
 			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 			if (Header.ColorMapLength != 0) {
@@ -231,6 +227,8 @@ ILboolean iLoadSunInternal(void)
 				}
 			}
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
+			if (iCurImage->Pal.Palette == NULL)
+				return IL_FALSE;
 			if (Header.ColorMapLength == 0) {  // Create the color map
 				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
 				iCurImage->Pal.Palette[1] = 0x00;
@@ -240,19 +238,31 @@ ILboolean iLoadSunInternal(void)
 				iCurImage->Pal.Palette[5] = 0xFF;
 			}
 			else {
-				iread(iCurImage->Pal.Palette, 1, 6);  // Read in the color map.
+				if (iread(iCurImage->Pal.Palette, 1, 6) != 6) {  // Read in the color map.
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
+				}
 			}
 			iCurImage->Pal.PalSize = 6;
 			iCurImage->Pal.PalType = IL_PAL_RGB24;
 
 			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
 
+			File = bfile(iGetFile());
+			if (File == NULL)
+				return IL_FALSE;
+
 			// Reads the bits
 			for (i = 0; i < iCurImage->Height; i++) {
-				bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
+				if (bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File) != (ILint)iCurImage->Width) {
+					bclose(File);
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
+				}
 				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
 				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
 			}
+			bclose(File);
 			break;
 
 
@@ -279,7 +289,10 @@ ILboolean iLoadSunInternal(void)
 			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
 				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
 				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps);
+					if (iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps) != iCurImage->Bps) {
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					if (Padding)  // Only possible for padding to be 0 or 1.
 						igetc();
 				}
@@ -287,6 +300,10 @@ ILboolean iLoadSunInternal(void)
 			else {  // RLE image data
 				for (i = 0; i < iCurImage->Height; i++) {
 					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
+					if (BytesRead == 0) {
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
 						igetc();  // Skip padding
 				}
@@ -309,7 +326,10 @@ ILboolean iLoadSunInternal(void)
 			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
 				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
 				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps);
+					if (iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps) != iCurImage->Bps) {
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					if (Padding)  // Only possible for padding to be 0 or 1.
 						igetc();
 				}
@@ -317,6 +337,10 @@ ILboolean iLoadSunInternal(void)
 			else {  // RLE image data
 				for (i = 0; i < iCurImage->Height; i++) {
 					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
+					if (BytesRead == 0) {
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
 						igetc();  // Skip padding
 				}
@@ -341,10 +365,11 @@ ILboolean iLoadSunInternal(void)
 			Offset = 0;
 			for (i = 0; i < Header.Height; i++) {
 				for (j = 0; j < Header.Width; j++) {
-					igetc();  // There is a pad byte before each pixel.
-					iCurImage->Data[Offset]   = igetc();
-					iCurImage->Data[Offset+1] = igetc();
-					iCurImage->Data[Offset+2] = igetc();
+					if (igetc() == IL_EOF || iread(iCurImage->Data + Offset, 1, 3) != 3) {  // There is a pad byte before each pixel.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
+					Offset += 3;
 				}
 			}
 			break;
@@ -364,9 +389,13 @@ ILuint iSunGetRle(ILubyte *Data, ILuint Length)
 	ILuint	i = 0, j;
 	ILubyte	Flag, Value;
 	ILuint	Count;
+	ILint	Next;
 
 	for (i = 0; i < Length; ) {
-		Flag = igetc();
+		Next = igetc();
+		if (Next == IL_EOF)
+			return 0;
+		Flag = (ILubyte)Next;
 		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
 			Count = igetc();
 			if (Count == 0) {  // 1 pixel of value (0x80)
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..a18120c 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -97,14 +97,18 @@ ILboolean iLoadWbmpInternal(void)
 	BitPadding = (8 - (Width % 8)) % 8;  // Has to be aligned on a byte boundary.  The rest is padding.
 	File = bfile(iGetFile());
 	if (File == NULL)
-		return IL_FALSE;  //@TODO: Error?
+		return IL_FALSE;
 
 	//@TODO: Do this without bread?  Would be faster, since we would not have to do
 	//  the second loop.
 
 	// Reads the bits
 	for (i = 0; i < iCurImage->Height; i++) {
-		bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
+		if (bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File) != (ILint)iCurImage->Width) {
+			bclose(File);
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_FALSE;
+		}
 		//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
 		bread(Padding, 1, BitPadding, File);  // Skip padding bits.
 	}
@@ -116,7 +120,7 @@ ILboolean iLoadWbmpInternal(void)
 
 	bclose(File);
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From 3c05736487d6e42792eb5eea2f8bd8cf6865c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 077/121] fix: a WAL that is cut short is refused and leaves no
 pointer to freed mipmaps [C17]

---
 DevIL/src-IL/src/il_wal.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..16dbd76 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -76,7 +76,7 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
-	ILimage	*Mipmaps[3], *CurImage;
+	ILimage	*Mipmaps[3] = { NULL, NULL, NULL }, *CurImage;
 	ILuint	i, NewW, NewH;
 
 	if (iCurImage == NULL) {
@@ -94,7 +94,10 @@ ILboolean iLoadWalInternal()
 	for (i = 0; i < 4; i++)
 		Header.Offsets[i] = GetLittleUInt();
 
-	iread(Header.AnimName, 1, 32);
+	if (iread(Header.AnimName, 1, 32) != 32) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	Header.Flags = GetLittleUInt();
 	Header.Contents = GetLittleUInt();
 	Header.Value = GetLittleUInt();
@@ -106,11 +109,6 @@ ILboolean iLoadWalInternal()
 		Mipmaps[i] = (ILimage*)icalloc(sizeof(ILimage), 1);
 		if (Mipmaps[i] == NULL)
 			goto cleanup_error;
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
-		if (Mipmaps[i]->Pal.Palette == NULL)
-			goto cleanup_error;
-		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
-		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
 	}
 
 	NewW = Header.Width;
@@ -122,20 +120,18 @@ ILboolean iLoadWalInternal()
 		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 			goto cleanup_error;
 		// Don't set until now so ilTexImage won't get rid of the palette.
+		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
+		if (Mipmaps[i]->Pal.Palette == NULL)
+			goto cleanup_error;
+		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
+		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
 		Mipmaps[i]->Pal.PalSize = 768;
 		Mipmaps[i]->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
 	iCurImage = CurImage;
-	ilCloseImage(iCurImage->Mipmaps);
-	iCurImage->Mipmaps = Mipmaps[0];
-	Mipmaps[0]->Mipmaps = Mipmaps[1];
-	Mipmaps[1]->Mipmaps = Mipmaps[2];
-
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
-		ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
 	if (iCurImage->Pal.Palette == NULL)
 		goto cleanup_error;
@@ -145,19 +141,24 @@ ILboolean iLoadWalInternal()
 	memcpy(iCurImage->Pal.Palette, ilDefaultQ2Pal, 768);
 
 	iseek(Header.Offsets[0], IL_SEEK_SET);
-	if (iread(iCurImage->Data, Header.Width * Header.Height, 1) != 1)
+	if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
 		goto cleanup_error;
 
 	for (i = 0; i < 3; i++) {
 		iseek(Header.Offsets[i+1], IL_SEEK_SET);
-		if (iread(Mipmaps[i]->Data, Mipmaps[i]->Width * Mipmaps[i]->Height, 1) != 1)
+		if (iread(Mipmaps[i]->Data, Mipmaps[i]->SizeOfData, 1) != 1)
 			goto cleanup_error;
 	}
 
+	iCurImage->Mipmaps = Mipmaps[0];
+	Mipmaps[0]->Mipmaps = Mipmaps[1];
+	Mipmaps[1]->Mipmaps = Mipmaps[2];
+
 	// Fixes all images, even mipmaps.
 	return ilFixImage();
 
 cleanup_error:
+	iCurImage = CurImage;
 	for (i = 0; i < 3; i++) {
 		ilCloseImage(Mipmaps[i]);
 	}
-- 
2.43.0


From bcb8335f7e49fc33b8bff0fda11805a9074c43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 078/121] fix: a PNG that is cut short is refused, and saving a
 colour indexed image as PNG needs single byte indices and a palette [C14]

---
 DevIL/src-IL/src/il_png.cpp | 53 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..593e839 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -173,8 +173,8 @@ ILboolean iLoadPngInternal()
 
 static void png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != (ILuint)length)
+		png_error(png_ptr, "file ends too early");
 	return;
 }
 
@@ -249,7 +249,7 @@ ILint readpng_init()
 
 ILboolean readpng_get_image(ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp	volatile row_pointers = NULL;
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -265,6 +265,7 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 
 	if (setjmp(png_jmpbuf(png_ptr))) {
 		png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+		ifree(row_pointers);
 		return IL_FALSE;
 	}
 
@@ -364,10 +365,14 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 			chans = 4;
 		}
 
+		iCurImage->Pal.Palette = (ILubyte*)ialloc(num_palette * chans);
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal.PalType = IL_PAL_NONE;
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 		iCurImage->Pal.PalSize = num_palette * chans;
 
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-
 		for (j = 0; j < num_palette; ++j) {
 			iCurImage->Pal.Palette[chans*j + 0] = palette[j].red;
 			iCurImage->Pal.Palette[chans*j + 1] = palette[j].green;
@@ -489,14 +494,16 @@ ILboolean iSavePngInternal()
 	png_text	text[4];
 	ILenum		PngType;
 	ILuint		BitDepth, i, j;
-	ILubyte 	**RowPtr = NULL;
-	ILimage 	*Temp = NULL;
+	ILubyte 	** volatile RowPtr = NULL;
+	ILimage 	* volatile Temp = NULL;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	imemclear(text, sizeof(png_text) * 4);
+
 	/* Create and initialize the png_struct with the desired error handler
 	* functions.  If you want to use the default stderr and longjump method,
 	* you can supply NULL for the last three parameters.  We also check that
@@ -516,18 +523,20 @@ ILboolean iSavePngInternal()
 		goto error_label;
 	}
 
-	/*// Set error handling.  REQUIRED if you aren't supplying your own
-	//	error handling functions in the png_create_write_struct() call.
+	// Set error handling:  png_error_func comes back here.
 	if (setjmp(png_jmpbuf(png_ptr))) {
-		// If we get here, we had a problem reading the file
-		png_destroy_write_struct(&png_ptr, &info_ptr);
-		ilSetError(IL_LIB_PNG_ERROR);
-		return IL_FALSE;
-	}*/
+		goto error_label;
+	}
 
 //	png_init_io(png_ptr, PngFile);
 	png_set_write_fn(png_ptr, NULL, png_write, flush_data);
 
+	// Indices are single bytes into a palette.
+	if (iCurImage->Format == IL_COLOUR_INDEX && (iCurImage->Bpc != 1 || iCurImage->Pal.Palette == NULL || iCurImage->Pal.PalSize == 0)) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		goto error_label;
+	}
+
 	switch (iCurImage->Type)
 	{
 		case IL_BYTE:
@@ -606,6 +615,8 @@ ILboolean iSavePngInternal()
         }
 
 		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL)
+			goto error_label;
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
         ilClosePal(TempPal);
 
@@ -649,7 +660,6 @@ ILboolean iSavePngInternal()
 	//png_set_gAMA(png_ptr, info_ptr, gamma);
 
 	// Optionally write comments into the image.
-	imemclear(text, sizeof(png_text) * 4);
 	text[0].key = (png_charp)"Generated by";
 	text[0].text = (png_charp)"Generated by the Developer's Image Library (DevIL)";
 	text[0].compression = PNG_TEXT_COMPRESSION_NONE;
@@ -667,14 +677,6 @@ ILboolean iSavePngInternal()
 	// Write the file header information.  REQUIRED.
 	png_write_info(png_ptr, info_ptr);
 
-	// Free up our user-defined text.
-	if (text[1].text)
-		ifree(text[1].text);
-	if (text[2].text)
-		ifree(text[2].text);
-	if (text[3].text)
-		ifree(text[3].text);
-
 	/* Shift the pixels up to a legal bit depth and fill in
 	* as appropriate to correctly scale the image.
 	*/
@@ -719,6 +721,9 @@ ILboolean iSavePngInternal()
 	// clean up after the write, and ifree any memory allocated
 	png_destroy_write_struct(&png_ptr, &info_ptr);
 
+	// Free up our user-defined text.
+	for (i = 1; i < 4; i++)
+		ifree(text[i].text);
 	ifree(RowPtr);
 
 	if (Temp != iCurImage)
@@ -728,6 +733,8 @@ ILboolean iSavePngInternal()
 
 error_label:
 	png_destroy_write_struct(&png_ptr, &info_ptr);
+	for (i = 1; i < 4; i++)
+		ifree(text[i].text);
 	ifree(RowPtr);
 	if (Temp != iCurImage)
 		ilCloseImage(Temp);
-- 
2.43.0


From c322d1c7de4445cbb256ae0de02de09b15635326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 079/121] fix: utility languages are in enum order, toolkit
 settings read and refuse correctly and are pushed in whole groups, shutdown
 frees strings and handlers and start resets the colours [C24/C25]

---
 DevIL/src-IL/include/il_internal.h            |  2 +
 DevIL/src-IL/src/il_devil.cpp                 | 12 ++++
 DevIL/src-IL/src/il_stack.cpp                 |  5 ++
 DevIL/src-IL/src/il_states.cpp                | 72 +++++++++++++++----
 .../include/ilu_error/ilu_err-spanish.h       |  4 +-
 DevIL/src-ILU/src/ilu_error.cpp               |  6 +-
 DevIL/src-ILU/src/ilu_states.cpp              |  4 ++
 DevIL/src-ILUT/src/ilut_states.cpp            | 18 ++++-
 8 files changed, 105 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 60918ac..d41cd19 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -180,6 +180,8 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					iFreeStates(void);
+void					iDefaultColours(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index ec76cbb..ba89247 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -352,6 +352,18 @@ static ILfloat ClearBlue  = 0.90588f;
 static ILfloat ClearAlpha = 0.0f;
 static ILfloat ClearLum   = 1.0f;
 
+// Sets the clear colour to its default.
+void iDefaultColours()
+{
+	ClearRed   = 1.0f;
+	ClearGreen = 0.972549f;
+	ClearBlue  = 0.90588f;
+	ClearAlpha = 0.0f;
+	ClearLum   = 1.0f;
+	return;
+}
+
+
 void ILAPIENTRY ilClearColour(ILclampf Red, ILclampf Green, ILclampf Blue, ILclampf Alpha)
 {
 	// Clamp to 0.0f - 1.0f.
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 557d9b4..2211c7a 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -667,6 +667,8 @@ void ILAPIENTRY ilInit()
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
 	ilSetError(IL_NO_ERROR);
 	ilDefaultStates();  // Set states to their defaults.
+	iDefaultColours();
+	ilKeyColour(0, 0, 0, 0);
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
@@ -710,6 +712,9 @@ void ILAPIENTRY ilShutDown()
 			ilCloseImage(ImageStack[i]);
 	}
 
+	iFreeStates();
+	ilRemoveRegistered();
+
 	if (ImageStack)
 		ifree(ImageStack);
 	ImageStack = NULL;
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f532d5e..1bf87e1 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -784,7 +784,54 @@ ILboolean ILAPIENTRY ilCompressFunc(ILenum Mode)
 // Strings that have not been set are NULL.
 static char *iDupString(const char *String)
 {
-	return String ? strdup(String) : NULL;
+	char *Copy;
+
+	if (String == NULL)
+		return NULL;
+	Copy = (char*)ialloc(strlen(String) + 1);
+	if (Copy != NULL)
+		strcpy(Copy, String);
+	return Copy;
+}
+
+
+static void iFreeString(char **String)
+{
+	if (*String)
+		ifree(*String);
+	*String = NULL;
+	return;
+}
+
+
+// Frees the strings of the states on top of the stack.
+static void iFreeCurStrings()
+{
+	iFreeString(&ilStates[ilCurrentPos].ilTgaId);
+	iFreeString(&ilStates[ilCurrentPos].ilTgaAuthName);
+	iFreeString(&ilStates[ilCurrentPos].ilTgaAuthComment);
+	iFreeString(&ilStates[ilCurrentPos].ilPngAuthName);
+	iFreeString(&ilStates[ilCurrentPos].ilPngTitle);
+	iFreeString(&ilStates[ilCurrentPos].ilPngDescription);
+	iFreeString(&ilStates[ilCurrentPos].ilTifDescription);
+	iFreeString(&ilStates[ilCurrentPos].ilTifHostComputer);
+	iFreeString(&ilStates[ilCurrentPos].ilTifDocumentName);
+	iFreeString(&ilStates[ilCurrentPos].ilTifAuthName);
+	iFreeString(&ilStates[ilCurrentPos].ilCHeader);
+	return;
+}
+
+
+// Pops everything and frees all strings.
+void iFreeStates()
+{
+	for (;;) {
+		iFreeCurStrings();
+		if (ilCurrentPos == 0)
+			break;
+		ilCurrentPos--;
+	}
+	return;
 }
 
 
@@ -903,6 +950,7 @@ void ILAPIENTRY ilPopAttrib()
 	}
 
 	// Should we check here to see if ilCurrentPos is too large?
+	iFreeCurStrings();
 	ilCurrentPos--;
 
 	return;
@@ -987,60 +1035,60 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 		case IL_TGA_ID_STRING:
 			if (ilStates[ilCurrentPos].ilTgaId)
 				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			ilStates[ilCurrentPos].ilTgaId = iDupString(String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthName)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthName = iDupString(String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthComment)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthComment = iDupString(String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilPngAuthName)
 				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilPngAuthName = iDupString(String);
 			break;
 		case IL_PNG_TITLE_STRING:
 			if (ilStates[ilCurrentPos].ilPngTitle)
 				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			ilStates[ilCurrentPos].ilPngTitle = iDupString(String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilPngDescription)
 				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			ilStates[ilCurrentPos].ilPngDescription = iDupString(String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilTifDescription)
 				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			ilStates[ilCurrentPos].ilTifDescription = iDupString(String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
 			if (ilStates[ilCurrentPos].ilTifHostComputer)
 				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			ilStates[ilCurrentPos].ilTifHostComputer = iDupString(String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
 						if (ilStates[ilCurrentPos].ilTifDocumentName)
 				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			ilStates[ilCurrentPos].ilTifDocumentName = iDupString(String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTifAuthName)
 				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTifAuthName = iDupString(String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
 			if (ilStates[ilCurrentPos].ilCHeader)
 				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			ilStates[ilCurrentPos].ilCHeader = iDupString(String);
 			break;
 
 		default:
diff --git a/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h b/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h
index 77b5a24..33fd966 100644
--- a/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h
+++ b/DevIL/src-ILU/include/ilu_error/ilu_err-spanish.h
@@ -22,8 +22,8 @@ ILconst_string iluErrorStringsSpanish[IL_FILE_READ_ERROR - IL_INVALID_ENUM + 1]
 	IL_TEXT("formato no soportado todav�a"),
 	IL_TEXT("error interno"),
 	IL_TEXT("valor incorrecto"),
-    IL_TEXT("operaci�n ilegaIL_TEXT("),
-	IL_TEXT("valor de fichero ilegaIL_TEXT("),
+    IL_TEXT("operaci�n ilegal"),
+	IL_TEXT("valor de fichero ilegal"),
 	IL_TEXT("cabecera incorrecta"),
 	IL_TEXT("par�metro incorrecto"),
 	IL_TEXT("no se puede abrir el fichero"),
diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index a954a00..236edb9 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -31,10 +31,10 @@ ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluErrorStringsEnglish,
 	iluErrorStringsArabic,
 	iluErrorStringsDutch,
-	iluErrorStringsFrench,
 	iluErrorStringsJapanese,
 	iluErrorStringsSpanish,
 	iluErrorStringsGerman,
+	iluErrorStringsFrench,
 	iluErrorStringsItalian
 };
 
@@ -42,10 +42,10 @@ ILconst_string *iluLibErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluLibErrorStringsEnglish,
 	iluLibErrorStringsArabic,
 	iluLibErrorStringsDutch,
-	iluLibErrorStringsFrench,
 	iluLibErrorStringsJapanese,
 	iluLibErrorStringsSpanish,
 	iluLibErrorStringsGerman,
+	iluLibErrorStringsFrench,
 	iluLibErrorStringsItalian
 };
 
@@ -53,10 +53,10 @@ ILconst_string *iluMiscErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluMiscErrorStringsEnglish,
 	iluMiscErrorStringsArabic,
 	iluMiscErrorStringsDutch,
-	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsJapanese,
 	iluMiscErrorStringsSpanish,
 	iluMiscErrorStringsGerman,
+	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsItalian
 };
 
diff --git a/DevIL/src-ILU/src/ilu_states.cpp b/DevIL/src-ILU/src/ilu_states.cpp
index f3a998c..f8090a7 100644
--- a/DevIL/src-ILU/src/ilu_states.cpp
+++ b/DevIL/src-ILU/src/ilu_states.cpp
@@ -48,6 +48,10 @@ void ILAPIENTRY iluGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = iluFilter;
 			break;
 
+		case ILU_PLACEMENT:
+			*Param = iluPlacement;
+			break;
+
 		default:
 			ilSetError(ILU_INVALID_ENUM);
 	}
diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0c88430..5296c34 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -228,7 +228,7 @@ void ILAPIENTRY ilutGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
 			break;
 		case ILUT_GL_GEN_S3TC:
-			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
+			*Param = ilutStates[ilutCurrentPos].ilutGenS3TC;
 			break;
 		case ILUT_S3TC_FORMAT:
 			*Param = ilutStates[ilutCurrentPos].ilutDXTCFormat;
@@ -270,6 +270,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 				ilutStates[ilutCurrentPos].ilutDXTCFormat = Param;
 				return;
 			}
+			break;
 
 //#ifdef ILUT_USE_OPENGL
 		case ILUT_MAXTEX_WIDTH:
@@ -333,6 +334,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 
 		default:
 			ilSetError(ILUT_INVALID_ENUM);
+			return;
 	}
 
 	ilSetError(IL_INVALID_PARAM);  // Parameter not in valid bounds.
@@ -354,12 +356,26 @@ void ILAPIENTRY ilutPushAttrib(ILuint Bits)
 
 	//memcpy(&ilutStates[ilutCurrentPos], &ilutStates[ilutCurrentPos - 1], sizeof(ILUT_STATES));
 
+	ilutDefaultStates();
+
 	if (Bits & ILUT_OPENGL_BIT) {
 		ilutStates[ilutCurrentPos].ilutUsePalettes = ilutStates[ilutCurrentPos-1].ilutUsePalettes;
 		ilutStates[ilutCurrentPos].ilutOglConv = ilutStates[ilutCurrentPos-1].ilutOglConv;
+		ilutStates[ilutCurrentPos].ilutForceIntegerFormat = ilutStates[ilutCurrentPos-1].ilutForceIntegerFormat;
+		ilutStates[ilutCurrentPos].ilutUseS3TC = ilutStates[ilutCurrentPos-1].ilutUseS3TC;
+		ilutStates[ilutCurrentPos].ilutGenS3TC = ilutStates[ilutCurrentPos-1].ilutGenS3TC;
+		ilutStates[ilutCurrentPos].ilutAutodetectTextureTarget = ilutStates[ilutCurrentPos-1].ilutAutodetectTextureTarget;
+	}
+	if (Bits & (ILUT_OPENGL_BIT | ILUT_D3D_BIT)) {
+		// These are common to both.
+		ilutStates[ilutCurrentPos].ilutDXTCFormat = ilutStates[ilutCurrentPos-1].ilutDXTCFormat;
+		ilutStates[ilutCurrentPos].MaxTexW = ilutStates[ilutCurrentPos-1].MaxTexW;
+		ilutStates[ilutCurrentPos].MaxTexH = ilutStates[ilutCurrentPos-1].MaxTexH;
+		ilutStates[ilutCurrentPos].MaxTexD = ilutStates[ilutCurrentPos-1].MaxTexD;
 	}
 	if (Bits & ILUT_D3D_BIT) {
 		ilutStates[ilutCurrentPos].D3DMipLevels = ilutStates[ilutCurrentPos-1].D3DMipLevels;
+		ilutStates[ilutCurrentPos].D3DPool = ilutStates[ilutCurrentPos-1].D3DPool;
 		ilutStates[ilutCurrentPos].D3DAlphaKeyColor = ilutStates[ilutCurrentPos-1].D3DAlphaKeyColor;
 	}
 
-- 
2.43.0


From 80ba4d0e637dad73b66536eca79091e0994e0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 080/121] fix: a refused new image frees nothing that was never
 allocated [C17/C23]

---
 DevIL/src-IL/src/il_devil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index ba89247..01e15f4 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -37,13 +37,14 @@ static ILboolean iSizeTooLarge(ILuint Width, ILuint Height, ILuint Depth, ILubyt
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
+
+	memset(Image, 0, sizeof(ILimage));
+
 	if (BpcType == 0 || iSizeTooLarge(Width, Height, Depth, Bpp, BpcType)) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	memset(Image, 0, sizeof(ILimage));
-
 	////
 	if (Width  == 0) Width = 1;
 	if (Height == 0) Height = 1;
-- 
2.43.0


From a4e072490f56e0a9df94e5f96a4ada3850ca8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 081/121] fix: cropping, canvas, turns, negation, alpha
 inversion, colour replacing, counting and comparing work for every format,
 channel size and depth and stay inside the image [C21/C22]

---
 DevIL/src-ILU/src/ilu_manip.cpp  | 447 ++++++++++++++-----------------
 DevIL/src-ILU/src/ilu_rotate.cpp | 328 ++++++-----------------
 2 files changed, 271 insertions(+), 504 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..534debc 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -5,58 +5,50 @@
 #include <limits.h>
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
-	ILubyte	*Data;
-	ILenum	Origin;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+// Gives the current image new dimensions, keeping its format, type, origin and palette.
+//  Returns the old pixels in *OldData, which have to be freed by the caller.
+static ILboolean iNewCanvas(ILuint Width, ILuint Height, ILuint Depth, ILubyte **OldData)
+{
+	ILubyte	*Data, *Palette = NULL;
+	ILpal	Pal = iluCurImage->Pal;
+	ILenum	Origin = iluCurImage->Origin;
 
 	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
 	if (Data == NULL) {
 		return IL_FALSE;
 	}
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
-	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
+	if (Pal.Palette && Pal.PalSize) {
+		Palette = (ILubyte*)ialloc(Pal.PalSize);
+		if (Palette == NULL) {
+			ifree(Data);
+			return IL_FALSE;
+		}
+		memcpy(Palette, Pal.Palette, Pal.PalSize);
+	}
+
+	if (!ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
+		ifree(Palette);
+		ifree(Data);
 		return IL_FALSE;
 	}
 	iluCurImage->Origin = Origin;
-
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
-		}
+	if (Palette) {
+		iluCurImage->Pal.Palette = Palette;
+		iluCurImage->Pal.PalSize = Pal.PalSize;
+		iluCurImage->Pal.PalType = Pal.PalType;
 	}
 
-	ifree(Data);
-
+	*OldData = Data;
 	return IL_TRUE;
 }
 
 
 ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint	x, y, z, c, OldBps, OldPlane;
+	ILuint	y, z, OldBps, OldPlane, PixSize;
 	ILubyte	*Data;
-	ILenum	Origin;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -64,34 +56,29 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+	// A dimension of 0 means 1, like it does in ilTexImage.
+	Width = IL_MAX(1, Width);
+	Height = IL_MAX(1, Height);
+	Depth = IL_MAX(1, Depth);
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
+	if (Width > iluCurImage->Width || XOff > iluCurImage->Width - Width ||
+		Height > iluCurImage->Height || YOff > iluCurImage->Height - Height ||
+		Depth > iluCurImage->Depth || ZOff > iluCurImage->Depth - Depth) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
 	OldBps = iluCurImage->Bps;
 	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		ifree(Data);
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
+	if (!iNewCanvas(Width, Height, Depth, &Data)) {
+		return IL_FALSE;
 	}
-	iluCurImage->Origin = Origin;
 
 	for (z = 0; z < iluCurImage->Depth; z++) {
 		for (y = 0; y < iluCurImage->Height; y++) {
-			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
-				}
-			}
+			memcpy(iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps,
+				Data + (z + ZOff) * OldPlane + (y + YOff) * OldBps + XOff * PixSize, iluCurImage->Bps);
 		}
 	}
 
@@ -101,20 +88,71 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 }
 
 
+// Crops all slices of the image alike.
+ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height)
+{
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	return iluCrop3D(XOff, YOff, 0, Width, Height, iluCurImage->Depth);
+}
+
+
 ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	if (ZOff <= 1)
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
+	// The last dimension does not matter to flat images.
+	if (iluCurImage->Depth <= 1 && ZOff <= 1)
 		return iluCrop2D(XOff, YOff, Width, Height);
 	return iluCrop3D(XOff, YOff, ZOff, Width, Height, Depth);
 }
 
 
+// The entry of the palette of the current image that is closest to the clear colour.
+static ILubyte iNearestClear()
+{
+	ILpal	*Pal = &iluCurImage->Pal;
+	ILubyte	Clear[4], *Entry;
+	ILuint	i, Dist, Least = UINT_MAX, Bpp = ilGetBppPal(Pal->PalType);
+	ILint	r, g, b;
+	ILubyte	Nearest = 0;
+
+	if (Pal->Palette == NULL || Bpp < 3)
+		return 0;
+
+	if (Pal->PalType == IL_PAL_BGR24 || Pal->PalType == IL_PAL_BGR32 || Pal->PalType == IL_PAL_BGRA32)
+		ilGetClear(Clear, IL_BGRA, IL_UNSIGNED_BYTE);
+	else
+		ilGetClear(Clear, IL_RGBA, IL_UNSIGNED_BYTE);
+	for (i = 0; i < Pal->PalSize / Bpp && i < 256; i++) {
+		Entry = Pal->Palette + i * Bpp;
+		r = Entry[0] - Clear[0];
+		g = Entry[1] - Clear[1];
+		b = Entry[2] - Clear[2];
+		Dist = r * r + g * g + b * b;
+		if (Dist < Least) {
+			Least = Dist;
+			Nearest = (ILubyte)i;
+		}
+	}
+
+	return Nearest;
+}
+
+
 //! Enlarges the canvas
 ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILubyte	*Data/*, Clear[4]*/;
-	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
+	ILuint	y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -185,25 +223,21 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		}
 	}
 
-	AddX *= iluCurImage->Bpp;
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
+	AddX *= iluCurImage->Bpp * iluCurImage->Bpc;
 
 	// Preserve old data.
 	OldPlane = iluCurImage->SizeOfPlane;
 	OldBps   = iluCurImage->Bps;
 	OldH     = iluCurImage->Height;
 	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
-
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
+	if (!iNewCanvas(Width, Height, Depth, &Data)) {
+		return IL_FALSE;
+	}
 
-	ilClearImage();
+	if (iluCurImage->Format == IL_COLOUR_INDEX)  // ilClearImage() would replace the palette.
+		memset(iluCurImage->Data, iNearestClear(), iluCurImage->SizeOfData);
+	else
+		ilClearImage();
 	/*ilGetClear(Clear);
 	if (iluCurImage->Bpp == 1) {
 		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
@@ -218,10 +252,8 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 
 	for (z = 0; z < OldD; z++) {
 		for (y = 0; y < OldH; y++) {
-			for (x = 0; x < OldBps; x++) {
-				iluCurImage->Data[z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + x + AddX] =
-					Data[z * OldPlane + y * OldBps + x];
-			}
+			memcpy(iluCurImage->Data + z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + AddX,
+				Data + z * OldPlane + y * OldBps, OldBps);
 		}
 	}
 
@@ -296,34 +328,34 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
 			Data += (Bpp - 1);
-			for( i = Bpp - 1; i < NumPix; i++, Data += Bpp )
+			for( i = 0; i < NumPix; i++, Data += Bpp )
 				*(Data) = ~*(Data);
 			break;
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
 			ShortPtr = ((ILushort*)Data) + Bpp-1;	
-			for (i = Bpp - 1; i < NumPix; i++, ShortPtr += Bpp)
+			for (i = 0; i < NumPix; i++, ShortPtr += Bpp)
 				*(ShortPtr) = ~*(ShortPtr);
 			break;
 
 		case IL_INT:
 		case IL_UNSIGNED_INT:
 			IntPtr = ((ILuint*)Data) + Bpp-1;
-			for (i = Bpp - 1; i < NumPix; i++, IntPtr += Bpp)
+			for (i = 0; i < NumPix; i++, IntPtr += Bpp)
 				*(IntPtr) = ~*(IntPtr);
 			break;
 
 		case IL_FLOAT:
 			FltPtr = ((ILfloat*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, FltPtr += Bpp)
+			for (i = 0; i < NumPix; i++, FltPtr += Bpp)
 				*(FltPtr) = 1.0f - *(FltPtr);
 			break;
 
 		case IL_DOUBLE:
 			DblPtr = ((ILdouble*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, DblPtr += Bpp)
-				*(DblPtr) = 1.0f - *(DblPtr);
+			for (i = 0; i < NumPix; i++, DblPtr += Bpp)
+				*(DblPtr) = 1.0 - *(DblPtr);
 			break;
 	}
 
@@ -334,9 +366,11 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 //! Inverts the colours in the image
 ILboolean ILAPIENTRY iluNegative()
 {
-	ILuint		i, j, c, *IntPtr, NumPix, Bpp;
+	ILuint		i, c, *IntPtr, NumPix, Bpp;
 	ILubyte		*Data;
 	ILushort	*ShortPtr;
+	ILfloat		*FltPtr;
+	ILdouble	*DblPtr;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -350,74 +384,61 @@ ILboolean ILAPIENTRY iluNegative()
 			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 		}
-		Data = iluCurImage->Pal.Palette;
-		i = iluCurImage->Pal.PalSize;
-	}
-	else {
-		Data = iluCurImage->Data;
-		i = iluCurImage->SizeOfData;
+		// The region is one of pixels, not of palette entries, and the palette is always made of bytes.
+		for (i = 0; i < iluCurImage->Pal.PalSize; i++) {
+			iluCurImage->Pal.Palette[i] = ~iluCurImage->Pal.Palette[i];
+		}
+		return IL_TRUE;
 	}
 
+	Data = iluCurImage->Data;
+	Bpp = iluCurImage->Bpp;
+	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 	RegionMask = iScanFill();
-	
-	// @TODO:  Optimize this some.
 
-	NumPix = i / iluCurImage->Bpc;
-	Bpp = iluCurImage->Bpp;
+	// @TODO:  Optimize this some.
 
-	if (RegionMask) {
-		switch (iluCurImage->Bpc)
+	for (i = 0; i < NumPix; i++) {
+		// The region is the same in each slice.
+		if (RegionMask && !RegionMask[i % (iluCurImage->Width * iluCurImage->Height)])
+			continue;
+		switch (iluCurImage->Type)
 		{
-			case 1:
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, Data += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(Data+c) = ~*(Data+c);
-					}
+			case IL_BYTE:
+			case IL_UNSIGNED_BYTE:
+				for (c = 0; c < Bpp; c++) {
+					Data[i * Bpp + c] = ~Data[i * Bpp + c];
 				}
 				break;
 
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, ShortPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(ShortPtr+c) = ~*(ShortPtr+c);
-					}
+			case IL_SHORT:
+			case IL_UNSIGNED_SHORT:
+			case IL_HALF:
+				ShortPtr = (ILushort*)Data + i * Bpp;
+				for (c = 0; c < Bpp; c++) {
+					ShortPtr[c] = ~ShortPtr[c];
 				}
 				break;
 
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, IntPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(IntPtr+c) = ~*(IntPtr+c);
-					}
-				}
-				break;
-		}
-	}
-	else {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0; j < NumPix; j++, Data++) {
-					*(Data) = ~*(Data);
+			case IL_INT:
+			case IL_UNSIGNED_INT:
+				IntPtr = (ILuint*)Data + i * Bpp;
+				for (c = 0; c < Bpp; c++) {
+					IntPtr[c] = ~IntPtr[c];
 				}
 				break;
 
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0; j < NumPix; j++, ShortPtr++) {
-					*(ShortPtr) = ~*(ShortPtr);
+			case IL_FLOAT:
+				FltPtr = (ILfloat*)Data + i * Bpp;
+				for (c = 0; c < Bpp; c++) {
+					FltPtr[c] = 1.0f - FltPtr[c];
 				}
 				break;
 
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0; j < NumPix; j++, IntPtr++) {
-					*(IntPtr) = ~*(IntPtr);
+			case IL_DOUBLE:
+				DblPtr = (ILdouble*)Data + i * Bpp;
+				for (c = 0; c < Bpp; c++) {
+					DblPtr[c] = 1.0 - DblPtr[c];
 				}
 				break;
 		}
@@ -487,8 +508,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
@@ -528,21 +549,19 @@ ILboolean ILAPIENTRY iluSwapColours() {
 }
 
 
-typedef struct BUCKET { ILubyte Colours[4];  struct BUCKET *Next; } BUCKET;
+static ILuint iPixelSize;  // For iComparePixels()
+
+static int iComparePixels(const void *Pixel1, const void *Pixel2)
+{
+	return memcmp(Pixel1, Pixel2, iPixelSize);
+}
+
 
+// Counts the different pixel values of the image (the indices of a colour indexed one).
 ILuint ILAPIENTRY iluColoursUsed()
 {
-	ILuint i, c, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
-	BUCKET Buckets[8192], *Temp;
-	ILubyte ColTemp[4];
-	ILboolean Matched;
-	BUCKET *Heap[9];
-	ILuint HeapPos = 0, HeapPtr = 0, HeapSize;
-
-	imemclear(Buckets, sizeof(BUCKET) * 8192);
-	for (c = 0; c < 9; c++) {
-		Heap[c] = 0;
-	}
+	ILuint	i, NumPix, NumCols = 1;
+	ILubyte	*Data;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -550,117 +569,42 @@ ILuint ILAPIENTRY iluColoursUsed()
 		return 0;
 	}
 
-	Bpp = iluCurImage->Bpp;
-	SizeData = iluCurImage->SizeOfData;
-
-	// Create our miniature memory heap.
-	// I have determined that the average number of colours versus
-	//	the number of pixels is about a 1:8 ratio, so divide by 8.
-	HeapSize = IL_MAX(1, iluCurImage->SizeOfData / iluCurImage->Bpp / 8);
-	Heap[0] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-	if (Heap[0] == NULL)
-		return IL_FALSE;
-
-	for (i = 0; i < SizeData; i += Bpp) {
-		*(ILuint*)ColTemp = 0;
-		/*for (c = 0; c < Bpp; c++) {
-			ColTemp[c] = iluCurImage->Data[i + c];
-		}*/
-		ColTemp[0] = iluCurImage->Data[i];
-		if (Bpp > 1) {
-			ColTemp[1] = iluCurImage->Data[i + 1];
-			ColTemp[2] = iluCurImage->Data[i + 2];
-		}
-		if (Bpp > 3)
-			ColTemp[3] = iluCurImage->Data[i + 3];
-
-		BucketPos = *(ILuint*)ColTemp % 8192;
+	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	if (Data == NULL)
+		return 0;
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
-		// Add to hash table
-		if (Buckets[BucketPos].Next == NULL) {
+	iPixelSize = iluCurImage->Bpp * iluCurImage->Bpc;
+	NumPix = iluCurImage->SizeOfData / iPixelSize;
+	qsort(Data, NumPix, iPixelSize, iComparePixels);
+	for (i = 1; i < NumPix; i++) {
+		if (memcmp(Data + (i - 1) * iPixelSize, Data + i * iPixelSize, iPixelSize))
 			NumCols++;
-			//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-			Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-			if (HeapPtr >= HeapSize) {
-				Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-				if (Heap[HeapPos] == NULL)
-					goto alloc_error;
-				HeapPtr = 0;
-			}
-			*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-			Buckets[BucketPos].Next->Next = NULL;
-		}
-		else {
-			Matched = IL_FALSE;
-			Temp = Buckets[BucketPos].Next;
-
-			ColVal = *(ILuint*)ColTemp;
-			while (Temp->Next != NULL) {
-				if (ColVal == *(ILuint*)Temp->Colours) {
-					Matched = IL_TRUE;
-					break;
-				}
-				Temp = Temp->Next;
-			}
-			if (!Matched) {
-				if (ColVal != *(ILuint*)Temp->Colours) {  // Check against last entry
-					NumCols++;
-					Temp = Buckets[BucketPos].Next;
-					//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-					Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-					if (HeapPtr >= HeapSize) {
-						Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-						if (Heap[HeapPos] == NULL)
-							goto alloc_error;
-						HeapPtr = 0;
-					}
-					Buckets[BucketPos].Next->Next = Temp;
-					*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-				}
-			}
-		}
 	}
 
-	// Delete our mini heap.
-	for (i = 0; i < 9; i++) {
-		if (Heap[i] == NULL)
-			break;
-		ifree(Heap[i]);
-	}
+	ifree(Data);
 
 	return NumCols;
-
-alloc_error:
-	for (i = 0; i < 9; i++) {
-		ifree(Heap[i]);
-	}
-
-	return 0;
 }
 
 
 ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 {
 	ILimage		*Original;
-	ILuint		OrigName, i;
-	ILboolean	Same = IL_TRUE;
+	ILuint		OrigName;
 
 	iluCurImage = ilGetCurImage();
-	OrigName = ilGetCurName();
-
-	// Same image, so return true.
-	if (ilGetCurName() == Comp)
-		return IL_TRUE;
-
 	if (iluCurImage == NULL || ilIsImage(Comp) == IL_FALSE) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
-		return 0;
+		return IL_FALSE;
 	}
 
+	OrigName = ilGetCurName();
 	ilBindImage(Comp);
-    Original = ilGetCurImage();
+	Original = ilGetCurImage();
+	ilBindImage(OrigName);
+	ilSetCurImage(iluCurImage);  // It can be a subimage.
 
-	// @TODO:  Should we check palettes, too?
 	if (Original->Bpp != iluCurImage->Bpp       ||
 		Original->Depth != iluCurImage->Depth   ||
 		Original->Format != iluCurImage->Format ||
@@ -668,19 +612,19 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		Original->Origin != iluCurImage->Origin ||
 		Original->Type != iluCurImage->Type ||
 		Original->Width != iluCurImage->Width) {
-			ilBindImage(OrigName);
 			return IL_FALSE;
 	}
-
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (Original->Data[i] != iluCurImage->Data[i]) {
-			Same = IL_FALSE;
-			break;
-		}
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (Original->Pal.PalType != iluCurImage->Pal.PalType ||
+			Original->Pal.PalSize != iluCurImage->Pal.PalSize ||
+			(Original->Pal.Palette == NULL) != (iluCurImage->Pal.Palette == NULL))
+				return IL_FALSE;
+		if (Original->Pal.Palette &&
+			memcmp(Original->Pal.Palette, iluCurImage->Pal.Palette, iluCurImage->Pal.PalSize))
+				return IL_FALSE;
 	}
 
-	ilBindImage(OrigName);
-	return Same;
+	return !memcmp(Original->Data, iluCurImage->Data, iluCurImage->SizeOfData);
 }
 
 
@@ -689,7 +633,7 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 {
 	ILubyte	ClearCol[4];
 	ILint	TolVal, Distance, Dist1, Dist2, Dist3;
-	ILuint	i, NumPix;
+	ILuint	i;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -701,13 +645,13 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 	if (Tolerance > 1.0f || Tolerance < -1.0f)
 		Tolerance = 1.0f;  // Clamp it.
 	TolVal = (ILuint)(fabs(Tolerance) * UCHAR_MAX);  // To be changed.
-	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
-
-	if (Tolerance <= FLT_EPSILON && Tolerance >= 0) {
- 			
-            //@TODO what is this?
+	if (iluCurImage->Bpc > 1 || iluCurImage->Format == IL_COLOUR_INDEX) {  // Not supported yet.
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
 	}
-	else {
+
+	// A tolerance of 0 replaces just the clear colour itself.
+	{
 		switch (iluCurImage->Format)
 		{
 			case IL_RGB:
@@ -727,9 +671,9 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 			case IL_BGR:
 			case IL_BGRA:
 				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
+					Dist1 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[0];
 					Dist2 = (ILint)iluCurImage->Data[i+1] - (ILint)ClearCol[1];
-					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[2];
+					Dist3 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[2];
 					Distance = (ILint)sqrt((float)(Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3));
 					if (Distance >= -TolVal && Distance <= TolVal) {
 						iluCurImage->Data[i+2] = Red;
@@ -1006,6 +950,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..46d1bfd 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -17,8 +17,7 @@
 
 ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 {
-	ILimage	*Temp, *Temp1, *CurImage = NULL;
-	ILenum	PalType = 0;
+	ILimage	*Temp, *Source, *Indexed;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -26,39 +25,38 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		PalType = iluCurImage->Pal.PalType;
-		CurImage = iluCurImage;
-		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	Source = iluCurImage;
+	// Quarter turns need no clear colour, so the indices can stay as they are.
+	if (iluCurImage->Format == IL_COLOUR_INDEX && fmod((ILdouble)Angle, 90.0) != 0.0) {
+		Source = iConvertImage(iluCurImage, ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (Source == NULL)
+			return IL_FALSE;
 	}
 
-	Temp = iluRotate_(iluCurImage, Angle);
-	if (Temp != NULL) {
-		if (PalType != 0) {
-			ilCloseImage(iluCurImage);
-			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+	Temp = iluRotate_(Source, Angle);
+	if (Source != iluCurImage) {
+		ilCloseImage(Source);
+		if (Temp != NULL) {
+			Indexed = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			ilCloseImage(Temp);
-			Temp = Temp1;
-			ilSetCurImage(CurImage);
-		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-		if (PalType != 0) {
-			iluCurImage = ilGetCurImage();
-			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-			iluCurImage->Pal.PalType = Temp->Pal.PalType;
-			iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
-			if (iluCurImage->Pal.Palette == NULL) {
-				ilCloseImage(Temp);
-				return IL_FALSE;
-			}
-			memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
+			Temp = Indexed;
 		}
+	}
+	if (Temp == NULL)
+		return IL_FALSE;
 
-		iluCurImage->Origin = Temp->Origin;
+	if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
 		ilCloseImage(Temp);
-		return IL_TRUE;
+		return IL_FALSE;
 	}
-	return IL_FALSE;
+	if (Temp->Pal.Palette) {  // The image takes it over.
+		iluCurImage->Pal = Temp->Pal;
+		Temp->Pal.Palette = NULL;
+	}
+	iluCurImage->Origin = Temp->Origin;
+	ilCloseImage(Temp);
+
+	return IL_TRUE;
 }
 
 
@@ -86,13 +84,11 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 {
 	ILimage		*Rotated = NULL;
-	ILint		x, y, c;
+	ILint		x, y, z;
 	ILdouble	Cos, Sin;
-	ILuint		RotOffset, ImgOffset;
+	ILuint		RotOffset, ImgOffset, PixSize;
 	ILint		MinX, MinY, MaxX, MaxY;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr;
+	ILuint		NewWidth, NewHeight;
 	ILdouble	Point1x, Point1y, Point2x, Point2y, Point3x, Point3y;
 	ILint		SrcX, SrcY;
 
@@ -113,9 +109,23 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 
 	MinX = (ILint)IL_MIN(0, IL_MIN(Point1x, IL_MIN(Point2x, Point3x)));
 	MinY = (ILint)IL_MIN(0, IL_MIN(Point1y, IL_MIN(Point2y, Point3y)));
+
 	MaxX = (ILint)IL_MAX(Point1x, IL_MAX(Point2x, Point3x));
 	MaxY = (ILint)IL_MAX(Point1y, IL_MAX(Point2y, Point3y));
 
+	if (Angle == 0.0 || Angle == 180.0) {
+		NewWidth = Image->Width;
+		NewHeight = Image->Height;
+	}
+	else if (Angle == 90.0 || Angle == 270.0) {
+		NewWidth = Image->Height;
+		NewHeight = Image->Width;
+	}
+	else {
+		NewWidth = IL_MAX(1, (ILuint)ceil(fabs((ILdouble)MaxX) - MinX));
+		NewHeight = IL_MAX(1, (ILuint)ceil(fabs((ILdouble)MaxY) - MinY));
+	}
+
 	Rotated = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Rotated == NULL)
 		return NULL;
@@ -124,238 +134,50 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		return NULL;
 	}
 
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
+	if (ilResizeImage(Rotated, NewWidth, NewHeight, Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
 		ilCloseImage(Rotated);
 		return IL_FALSE;
 	}
 
-	ilClearImage_(Rotated);
-
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-	DblPtr = (ILdouble*)iluCurImage->Data;
+	PixSize = Image->Bpp * Image->Bpc;
 
 	//if (iluFilter == ILU_NEAREST) {
-	switch (iluCurImage->Bpc)
-	{
-		case 1:  // Byte-based (most images)
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:  // Short-based
-			Image->Bps /= 2;   // Makes it easier to just
-			Rotated->Bps /= 2; //   cast to short.
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-							}
-						}
-					}
-				}
-			}
-			Image->Bps *= 2;
-			Rotated->Bps *= 2;
-			break;
-
-		case 4:  // Floats or 32-bit integers
-			Image->Bps /= 4;
-			Rotated->Bps /= 4;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
+	if (Angle == 0.0 || Angle == 90.0 || Angle == 180.0 || Angle == 270.0) {
+		for (z = 0; z < (ILint)Image->Depth; z++) {
+			for (y = 0; y < (ILint)Image->Height; y++) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-							}
-						}
-					}
+					if (Angle == 0.0)
+						RotOffset = y * Rotated->Bps + x * PixSize;
+					else if (Angle == 90.0)
+						RotOffset = x * Rotated->Bps + (Image->Height - 1 - y) * PixSize;
+					else if (Angle == 180.0)
+						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + (Image->Width - 1 - x) * PixSize;
+					else
+						RotOffset = (Image->Width - 1 - x) * Rotated->Bps + y * PixSize;
+					ImgOffset = y * Image->Bps + x * PixSize;
+					memcpy(Rotated->Data + z * Rotated->SizeOfPlane + RotOffset,
+						Image->Data + z * Image->SizeOfPlane + ImgOffset, PixSize);
 				}
 			}
-			Image->Bps *= 4;
-			Rotated->Bps *= 4;
-			break;
-
-		case 8:  // Double or 64-bit integers
-			Image->Bps /= 8;
-			Rotated->Bps /= 8;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) { 
-					for (y = 0; y < (ILint)Image->Height; y++) { 
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-							}
-						}
+		}
+	}
+	else {
+		ilClearImage_(Rotated);
+
+		for (z = 0; z < (ILint)Rotated->Depth; z++) {
+			for (x = 0; x < (ILint)Rotated->Width; x++) {
+				for (y = 0; y < (ILint)Rotated->Height; y++) {
+					SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
+					SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
+					if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
+						RotOffset = y * Rotated->Bps + x * PixSize;
+						ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * PixSize;
+						memcpy(Rotated->Data + z * Rotated->SizeOfPlane + RotOffset,
+							Image->Data + z * Image->SizeOfPlane + ImgOffset, PixSize);
 					}
 				}
 			}
-			Image->Bps *= 8;
-			Rotated->Bps *= 8;
-			break;
+		}
 	}
 
 	return Rotated;
-- 
2.43.0


From 322e1e48715e995330c0d6df1825d0ee1bf89039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 082/121] fix: scaling of colours and alpha, gamma, contrast
 and saturation apply to unsigned bytes and clamp, regions free what they use
 [C22]

---
 DevIL/src-ILU/src/ilu_filter.cpp | 112 +++++++++++++++++++++----------
 DevIL/src-ILU/src/ilu_region.cpp |  97 ++++++++++++++++----------
 2 files changed, 136 insertions(+), 73 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..e62fb6e 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -722,7 +722,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) && (iluCurImage->Type != IL_UNSIGNED_BYTE) ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -785,7 +785,7 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) && (iluCurImage->Type != IL_UNSIGNED_BYTE) ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -830,7 +830,7 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			NumPix = iluCurImage->SizeOfData / (iluCurImage->Bpc*iluCurImage->Bpp);
+			NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;  // All channels of all pixels
 			switch (iluCurImage->Bpc) {
 				case 1:
 					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
@@ -934,48 +934,68 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 
 ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 {
-	ILfloat		Table[256];
+	ILubyte		Table[256];
 	ILuint		i, NumPix;
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr;
+	ILfloat		*FltPtr;
+	ILdouble	*DblPtr;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (!(Gamma > 0.0f)) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
+	}
 
 	for (i = 0; i < 256; i++) {
-		Table[i] = (ILfloat)pow(i / 255.0, 1.0 / Gamma);
+		Table[i] = (ILubyte)(pow(i / 255.0, 1.0 / Gamma) * UCHAR_MAX + 0.5);
 	}
 
-	// Do we need to clamp here?
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		for (i = 0; i < iluCurImage->Pal.PalSize; i++) {
-			iluCurImage->Pal.Palette[i] = (ILubyte)(Table[iluCurImage->Pal.Palette[i]] * 255);
+			iluCurImage->Pal.Palette[i] = Table[iluCurImage->Pal.Palette[i]];
 		}
 	}
 	else {
-		// Not too sure if this is the correct way of handling multiple bpc's.
-		switch (iluCurImage->Bpc)
+		NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
+		switch (iluCurImage->Type)
 		{
-			case 1:
-				for (i = 0; i < iluCurImage->SizeOfData; i++) {
-					iluCurImage->Data[i] = (ILubyte)(Table[iluCurImage->Data[i]] * UCHAR_MAX);
+			case IL_BYTE:
+			case IL_UNSIGNED_BYTE:
+				for (i = 0; i < NumPix; i++) {
+					iluCurImage->Data[i] = Table[iluCurImage->Data[i]];
 				}
 				break;
-			case 2:
-				NumPix = iluCurImage->SizeOfData / 2;
+			case IL_SHORT:
+			case IL_UNSIGNED_SHORT:
 				ShortPtr = (ILushort*)iluCurImage->Data;
 				for (i = 0; i < NumPix; i++) {
-					ShortPtr[i] = (ILushort)(Table[ShortPtr[i] >> 8] * USHRT_MAX);
+					ShortPtr[i] = (ILushort)(pow(ShortPtr[i] / (ILdouble)USHRT_MAX, 1.0 / Gamma) * USHRT_MAX + 0.5);
 				}
 				break;
-			case 4:
-				NumPix = iluCurImage->SizeOfData / 4;
+			case IL_INT:
+			case IL_UNSIGNED_INT:
 				IntPtr = (ILuint*)iluCurImage->Data;
 				for (i = 0; i < NumPix; i++) {
-					IntPtr[i] = (ILuint)(Table[IntPtr[i] >> 24] * UINT_MAX);
+					IntPtr[i] = (ILuint)(pow(IntPtr[i] / (ILdouble)UINT_MAX, 1.0 / Gamma) * UINT_MAX + 0.5);
+				}
+				break;
+			case IL_FLOAT:
+				FltPtr = (ILfloat*)iluCurImage->Data;
+				for (i = 0; i < NumPix; i++) {
+					if (FltPtr[i] > 0.0f)
+						FltPtr[i] = (ILfloat)pow((ILdouble)FltPtr[i], 1.0 / Gamma);
+				}
+				break;
+			case IL_DOUBLE:
+				DblPtr = (ILdouble*)iluCurImage->Data;
+				for (i = 0; i < NumPix; i++) {
+					if (DblPtr[i] > 0.0)
+						DblPtr[i] = pow(DblPtr[i], 1.0 / Gamma);
 				}
 				break;
 		}
@@ -991,6 +1011,12 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 //
 
 
+static ILubyte iClampByte(ILfloat Value)
+{
+	return (ILubyte)(Value < 0 ? 0 : Value > UCHAR_MAX ? UCHAR_MAX : Value);
+}
+
+
 void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 {
 	ILubyte	*Data = Image->Data;
@@ -1002,11 +1028,11 @@ void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 		case IL_RGB:
 		case IL_RGBA:
 			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
+				r = iClampByte(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
 									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
+				g = iClampByte(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
 									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
+				b = iClampByte(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
 									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
 				Data[i]   = r;
 				Data[i+1] = g;
@@ -1018,11 +1044,11 @@ void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 		case IL_BGR:
 		case IL_BGRA:
 			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
+				r = iClampByte(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
 									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
+				g = iClampByte(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
 									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
+				b = iClampByte(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
 									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
 				Data[i]   = b;
 				Data[i+1] = g;
@@ -1098,6 +1124,13 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 		return IL_FALSE;
 	}
 
+	if (iluCurImage->Bpc > 1 ||
+		(iluCurImage->Format != IL_RGB && iluCurImage->Format != IL_RGBA &&
+		iluCurImage->Format != IL_BGR && iluCurImage->Format != IL_BGRA)) {  // Not supported.
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	iApplyMatrix(iluCurImage, Mat);
 
 	return IL_TRUE;
@@ -1222,27 +1255,34 @@ void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 // Works best when Contrast is in the range [-0.5, 1.7].
 ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 {
-	ILimage	*Grey;
-	ILuint	i;
+	ILubyte	*Data;
+	ILuint	i, Size;
+	ILint	d;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
+		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Grey = ilNewImage(iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Bpc);
-	if (Grey == NULL) {
-		return IL_FALSE;
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		Data = iluCurImage->Pal.Palette;
+		Size = iluCurImage->Pal.Palette ? iluCurImage->Pal.PalSize : 0;
 	}
-
-	// Make Grey all 127's
-	for (i = 0; i < Grey->SizeOfData; i++) {
-		Grey->Data[i] = 127;
+	else {
+		if (iluCurImage->Bpc > 1) {  // Not supported yet.
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
+		Data = iluCurImage->Data;
+		Size = iluCurImage->SizeOfData;
 	}
 
-	iIntExtImg(Grey, iluCurImage, Contrast);
-	ilCloseImage(Grey);
+	// Mixes with (or moves away from) a grey of 127.
+	for (i = 0; i < Size; i++) {
+		d = (ILint)((1 - Contrast) * 127 + Contrast * Data[i]);
+		Data[i] = (ILubyte)(d < 0 ? 0 : d > 255 ? 255 : d);
+	}
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..c1f0215 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -19,21 +19,28 @@ ILpointf	*RegionPointsf = NULL;
 ILuint		PointNum = 0;
 ILubyte		*iRegionMask = NULL;
 
+static void iDropRegion()
+{
+	ifree(RegionPointsi);
+	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	RegionPointsf = NULL;
+	PointNum = 0;
+	return;
+}
+
+
 void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 {
 	if (Points == NULL || n == 0) {
-		ifree(RegionPointsi);
-		ifree(RegionPointsf);
-		RegionPointsf = NULL;
-		PointNum = 0;
+		iDropRegion();
 		return;
 	}
 	if (n < 3) {
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
-	ifree(RegionPointsi);
-	ifree(RegionPointsf);
+	iDropRegion();
 	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
 	if (RegionPointsf == NULL)
 		return;
@@ -46,18 +53,14 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 {
 	if (Points == NULL || n == 0) {
-		ifree(RegionPointsi);
-		ifree(RegionPointsf);
-		RegionPointsi = NULL;
-		PointNum = 0;
+		iDropRegion();
 		return;
 	}
 	if (n < 3) {
 		ilSetError(ILU_INVALID_PARAM);
 		return;
 	}
-	ifree(RegionPointsi);
-	ifree(RegionPointsf);
+	iDropRegion();
 	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
 	if (RegionPointsi == NULL)
 		return;
@@ -124,7 +127,7 @@ void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 {
 	Edge *edge;
 	ILpointi v1, v2;
@@ -138,6 +141,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		v2 = pts[i];
 		if (v1.y != v2.y) {			// nonhorizontal line
 			edge = (Edge*)ialloc(sizeof(Edge));
+			if (edge == NULL)
+				return IL_FALSE;
 			if (v1.y < v2.y) {		// up-going edge
 				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
 			}
@@ -148,6 +153,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		yPrev = v1.y;
 		v1 = v2;
 	}
+
+	return IL_TRUE;
 }
 
 
@@ -156,6 +163,7 @@ void BuildActiveList(ILint scan, Edge *active, Edge *edges[])
 	Edge *p, *q;
 
 	p = edges[scan]->next;
+	edges[scan]->next = NULL;  // They are on the active list from now on.
 	while (p) {
 		q = p->next;
 		InsertEdge(active, p);
@@ -173,7 +181,7 @@ void FillScan(ILint scan, Edge *active)
 	ILint i;
 
 	p1 = active->next;
-	while (p1) {
+	while (p1 && p1->next) {
 		p2 = p1->next;
 		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect; i++) {
 			iRegionSetPixel((ILuint)i, scan);
@@ -187,7 +195,7 @@ void DeleteAfter(Edge *q)
 {
 	Edge *p = q->next;
 	q->next = p->next;
-	free(p);
+	ifree(p);
 }
 
 
@@ -223,6 +231,30 @@ void ResortActiveList(Edge *active)
 }
 
 
+// Frees the edge records that have been allocated.
+static void FreeEdges(Edge **edges, Edge *active)
+{
+	Edge	*next;
+	ILuint	i;
+
+	if (edges) {
+		for (i = 0; i < iluCurImage->Height; i++) {
+			while (edges[i]) {
+				next = edges[i]->next;
+				ifree(edges[i]);
+				edges[i] = next;
+			}
+		}
+		ifree(edges);
+	}
+	while (active) {
+		next = active->next;
+		ifree(active);
+		active = next;
+	}
+}
+
+
 ILubyte *iScanFill()
 {
 	Edge	**edges = NULL, *active = NULL/*, *temp*/;
@@ -244,23 +276,25 @@ ILubyte *iScanFill()
 			RegionPointsi[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
 			RegionPointsi[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
 		}
-		if (RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
+		if (RegionPointsi[i].x < 0 || RegionPointsi[i].y < 0 ||
+			RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
 			goto error;
 	}
 
-	edges = (Edge**)ialloc(sizeof(Edge*) * iluCurImage->Height);
+	edges = (Edge**)icalloc(iluCurImage->Height, sizeof(Edge*));
 	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-	if (edges == NULL || iRegionMask == NULL)
+	active = (Edge*)icalloc(1, sizeof(Edge));
+	if (edges == NULL || iRegionMask == NULL || active == NULL)
 		goto error;
 	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
 
 	for (i = 0; i < iluCurImage->Height; i++) {
-		edges[i] = (Edge*)ialloc(sizeof(Edge));
-		edges[i]->next = NULL;
+		edges[i] = (Edge*)icalloc(1, sizeof(Edge));
+		if (edges[i] == NULL)
+			goto error;
 	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
-	active = (Edge*)ialloc(sizeof(Edge));
-	active->next = NULL;
+	if (!BuildEdgeList(PointNum, RegionPointsi, edges))
+		goto error;
 
 	for (scan = 0; scan < iluCurImage->Height; scan++) {
 		BuildActiveList(scan, active, edges);
@@ -271,16 +305,7 @@ ILubyte *iScanFill()
 		}
 	}
 
-	// Free edge records that have been allocated.
-	/*for (i = 0; i < iluCurImage->Height; i++) {
-		while (edges[i]) {
-			temp = edges[i]->next;
-			ifree(edges[i]);
-			edges[i] = temp;
-		}
-	}*/
-
-	ifree(edges);
+	FreeEdges(edges, active);
 
 	if (RegionPointsf) {
 		ifree(RegionPointsi);
@@ -295,10 +320,8 @@ error:
 		RegionPointsi = NULL;
 	}
 
-	// Free edge records that have been allocated.
-
-	ifree(edges);
+	FreeEdges(edges, active);
 	ifree(iRegionMask);
+	iRegionMask = NULL;
 	return NULL;
 }
-
-- 
2.43.0


From 89144985d5ee60d4b48f78a0526c7b32e5427e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 083/121] fix: scaling and mipmaps keep format, palette and
 flat colours and report failures [C23]

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp |  10 +-
 DevIL/src-ILU/src/ilu_mipmap.cpp     |   6 +-
 DevIL/src-ILU/src/ilu_scale.cpp      | 188 ++--------
 DevIL/src-ILU/src/ilu_scale2d.cpp    | 494 +++++----------------------
 DevIL/src-ILU/src/ilu_scale3d.cpp    |  77 +----
 5 files changed, 139 insertions(+), 636 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..2b6d3ce 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -308,7 +308,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	/* create intermediate column to hold horizontal dst column zoom */
 	tmp = (ILubyte*)ialloc(src->Height * sizeof(ILubyte));
 	if (tmp == NULL) {
-		return 0;
+		return -1;
 	}
 
 	xscale = (double) dst->Width / (double) src->Width;
@@ -473,15 +473,21 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	}
 
 	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
+	if (Dest == NULL)
+		return IL_FALSE;
 	Dest->Origin = iluCurImage->Origin;
 	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
 
-	ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data);
+	if (!ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data)) {
+		ilCloseImage(Dest);
+		return IL_FALSE;
+	}
 	iluCurImage->Origin = Dest->Origin;
 	iluCurImage->Duration = Dest->Duration;
 	ilCloseImage(Dest);
diff --git a/DevIL/src-ILU/src/ilu_mipmap.cpp b/DevIL/src-ILU/src/ilu_mipmap.cpp
index 94efbf5..deaff6d 100644
--- a/DevIL/src-ILU/src/ilu_mipmap.cpp
+++ b/DevIL/src-ILU/src/ilu_mipmap.cpp
@@ -18,8 +18,6 @@
 
 ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint	x1 = 0, x2 = 0, y1 = 0, y2 = 0;
-
 	if (Parent->Width == 1 && Parent->Height == 1 && Parent->Depth == 1) {  // Already at the last mipmap
 		return IL_TRUE;
 	}
@@ -35,9 +33,7 @@ ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Dep
 	if (Parent->Mipmaps == NULL)
 		return IL_FALSE;
 
-	iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
-
-	return IL_TRUE;
+	return iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
 }
 
 
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..2969db9 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -23,12 +23,15 @@ ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 	}
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
 					(ILuint)(iluCurImage->Depth * ZDim));
 }
 
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width);
 ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
 
@@ -36,8 +39,6 @@ ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILimage		*Temp;
-	ILboolean	UsePal;
-	ILenum		PalType;
 	ILenum		Origin;
 
 	iluCurImage = ilGetCurImage();
@@ -74,7 +75,7 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 				// Not supported yet.
 				if (iluCurImage->Type != IL_UNSIGNED_BYTE ||
 					iluCurImage->Format == IL_COLOUR_INDEX ||
-					iluCurImage->Depth > 1) {
+					iluCurImage->Depth > 1 || Depth > 1) {
 						ilSetError(ILU_ILLEGAL_OPERATION);
 						return IL_FALSE;
 				}
@@ -112,8 +113,6 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 
 
 	Origin = iluCurImage->Origin;
-	UsePal = (iluCurImage->Format == IL_COLOUR_INDEX);
-	PalType = iluCurImage->Pal.PalType;
 	Temp = iluScale_(iluCurImage, Width, Height, Depth);
 	if (Temp != NULL) {
 		if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
@@ -121,12 +120,11 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 			return IL_FALSE;
 		}
 		iluCurImage->Origin = Origin;
-		ilCloseImage(Temp);
-		if (UsePal) {
-			if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
-				return IL_FALSE;
-			ilConvertPal(PalType);
+		if (Temp->Format == IL_COLOUR_INDEX) {  // The image takes the palette over.
+			iluCurImage->Pal = Temp->Pal;
+			Temp->Pal.Palette = NULL;
 		}
+		ilCloseImage(Temp);
 		return IL_TRUE;
 	}
 
@@ -136,40 +134,31 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 
 ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILimage	*Scaled, *CurImage, *ToScale;
-	ILenum	Format, PalType;
-
-	CurImage = ilGetCurImage();
-	Format = Image->Format;
-	if (Format == IL_COLOUR_INDEX) {
-		ilSetCurImage(Image);
-		PalType = Image->Pal.PalType;
-		ToScale = iConvertImage(iluCurImage, ilGetPalBaseType(Image->Pal.PalType), iluCurImage->Type);
-	}
-	else {
-		ToScale = Image;
+	ILimage	*Scaled, *ToScale = Image, *Indexed;
+	ILenum	PalType = Image->Pal.PalType;
+
+	// Indices cannot be interpolated, but they can be copied.
+	if (Image->Format == IL_COLOUR_INDEX && iluFilter != ILU_NEAREST && Depth <= 1 && Image->Depth <= 1) {
+		ToScale = iConvertImage(Image, ilGetPalBaseType(PalType), Image->Type);
+		if (ToScale == NULL)
+			return NULL;
 	}
 
 	// So we don't replicate this 3 times (one in each iluScalexD_() function.
 	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
-	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE) {
-		ilCloseImage(Scaled);
+	if (Scaled == NULL) {
 		if (ToScale != Image)
 			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
 		return NULL;
 	}
-	if (ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc) == IL_FALSE) {
+	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE ||
+		ilResizeImage(Scaled, Width, Height, Depth, ToScale->Bpp, ToScale->Bpc) == IL_FALSE) {
 		ilCloseImage(Scaled);
 		if (ToScale != Image)
 			ilCloseImage(ToScale);
-		ilSetCurImage(CurImage);
 		return NULL;
 	}
-	
-	if (Height <= 1 && Image->Height <= 1) {
-		iluScale1D_(ToScale, Scaled, Width);
-	}
+
 	if (Depth <= 1 && Image->Depth <= 1) {
 		iluScale2D_(ToScale, Scaled, Width, Height);
 	}
@@ -177,129 +166,20 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 		iluScale3D_(ToScale, Scaled, Width, Height, Depth);
 	}
 
-	if (Format == IL_COLOUR_INDEX) {
-		//ilSetCurImage(Scaled);
-		//ilConvertImage(IL_COLOUR_INDEX);
-		ilSetCurImage(CurImage);
+	if (ToScale != Image) {
 		ilCloseImage(ToScale);
-	}
-
-	return Scaled;
-}
-
-
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width)
-{
-	ILuint		x1, x2;
-	ILuint		NewX1, NewX2, NewX3, x, c;
-	ILdouble	ScaleX, t1, t2, f;
-	ILushort	*ShortPtr, *SShortPtr;
-	ILuint		*IntPtr, *SIntPtr;
-
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILdouble)Width / Image->Width;
-
-	ShortPtr = (ILushort*)Image->Data;
-	SShortPtr = (ILushort*)Scaled->Data;
-	IntPtr = (ILuint*)Image->Data;
-	SIntPtr = (ILuint*)Scaled->Data;
-
-	if (iluFilter == ILU_NEAREST) {
-		switch (Image->Bpc)
-		{
-			case 1:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewX1 + c] = Image->Data[NewX2 + c];
-					}
-				}
-				break;
-			case 2:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewX1 + c] = ShortPtr[NewX2 + c];
-					}
-				}
-				break;
-			case 4:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewX1 + c] = IntPtr[NewX2 + c];
-					}
-				}
-				break;
-		}
-	}
-	else {  // IL_LINEAR or IL_BILINEAR
-		switch (Image->Bpc)
-		{
-			case 1:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewX1 + c];
-						x2 = Image->Data[NewX2 + c];
-
-						Scaled->Data[NewX3 + c] = (ILubyte)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 2:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewX1 + c];
-						x2 = ShortPtr[NewX2 + c];
-
-						SShortPtr[NewX3 + c] = (ILushort)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 4:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewX1 + c];
-						x2 = IntPtr[NewX2 + c];
-
-						SIntPtr[NewX3 + c] = (ILuint)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
+		Indexed = iConvertImage(Scaled, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		ilCloseImage(Scaled);
+		Scaled = Indexed;
+		if (Scaled != NULL && Scaled->Pal.PalType != PalType) {
+			ILpal *Pal = iConvertPal(&Scaled->Pal, PalType);
+			if (Pal == NULL) {
+				ilCloseImage(Scaled);
+				return NULL;
+			}
+			ifree(Scaled->Pal.Palette);
+			Scaled->Pal = *Pal;
+			ifree(Pal);
 		}
 	}
 
diff --git a/DevIL/src-ILU/src/ilu_scale2d.cpp b/DevIL/src-ILU/src/ilu_scale2d.cpp
index 98a5158..57beb94 100644
--- a/DevIL/src-ILU/src/ilu_scale2d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale2d.cpp
@@ -22,16 +22,6 @@ ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint H
 ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 
-static ILuint	x1, x2;
-static ILuint	NewY1, NewY2, NewX1, NewX2, Size, x, y, c;
-static ILdouble	ScaleX, ScaleY, t1, t2, t3, t4, f, ft, NewX;
-static ILdouble	Table[2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint	ImgBps, SclBps;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint	*IntPtr, *SIntPtr;
-static ILfloat	*FloatPtr, *SFloatPtr;
-
-
 
 ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
@@ -40,9 +30,6 @@ ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 		return IL_FALSE;
 	}
 
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-
 	if (iluFilter == ILU_NEAREST)
 		return iluScale2DNear_(Image, Scaled, Width, Height);
 	else if (iluFilter == ILU_LINEAR)
@@ -54,426 +41,113 @@ ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 
 ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewY1 + NewX1 + c] = Image->Data[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
+	ILuint		x, y, SrcX, SrcY, PixSize = Image->Bpp * Image->Bpc;
+	ILdouble	ScaleX, ScaleY;
 
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewY1 + NewX1 + c] = ShortPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
+	ScaleX = (ILfloat)Width / Image->Width;
+	ScaleY = (ILfloat)Height / Image->Height;
 
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewY1 + NewX1 + c] = IntPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
+	for (y = 0; y < Height; y++) {
+		SrcY = IL_MIN((ILuint)(y / ScaleY), Image->Height - 1);
+		for (x = 0; x < Width; x++) {
+			SrcX = IL_MIN((ILuint)(x / ScaleX), Image->Width - 1);
+			memcpy(Scaled->Data + y * Scaled->Bps + x * PixSize,
+				Image->Data + SrcY * Image->Bps + SrcX * PixSize, PixSize);
+		}
 	}
 
 	return Scaled;
 }
 
 
-ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewY1 + NewX1 + c];
-						x2 = Image->Data[NewY1 + NewX2 + c];
-						Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewY1 + NewX1 + c];
-						x2 = ShortPtr[NewY1 + NewX2 + c];
-						SShortPtr[Size + c] = (ILushort)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
-			break;
+// Stores an interpolated value, which is between the smallest and the largest one of the type.
+template <class T> static T iStore(ILdouble Value) { return (T)floor(Value + 0.5); }
+template <> ILfloat iStore<ILfloat>(ILdouble Value) { return (ILfloat)Value; }
+template <> ILdouble iStore<ILdouble>(ILdouble Value) { return Value; }
 
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
 
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewY1 + NewX1 + c];
-						x2 = IntPtr[NewY1 + NewX2 + c];
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * x1 + f * x2);
-					}
-				}
+// Interpolates between the four pixels around each point.  Uses an algorithm described by Paul Nettle at
+//  http://www.gamedev.net/reference/articles/article669.asp.
+template <class T> static void iInterpolate(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILboolean RowsOnly)
+{
+	ILuint		x, y, c, X1, X2, Y1, Y2;
+	ILdouble	SrcX, SrcY, FracX, FracY;
+	const T		*Src = (const T*)Image->Data;
+	T			*Dest = (T*)Scaled->Data;
+	ILuint		Bpp = Image->Bpp, SrcBps = Image->Width * Bpp;
+
+	for (y = 0; y < Height; y++) {
+		// Calculate where we want to choose pixels from in our source image.
+		SrcY = (ILdouble)y * Image->Height / Height;
+		Y1 = IL_MIN((ILuint)SrcY, Image->Height - 1);
+		FracY = RowsOnly ? 0.0 : SrcY - Y1;
+		// We do not want to go past the right edge of the image or past the last line in the image.
+		Y2 = IL_MIN(Y1 + 1, Image->Height - 1);
+		for (x = 0; x < Width; x++) {
+			SrcX = (ILdouble)x * Image->Width / Width;
+			X1 = IL_MIN((ILuint)SrcX, Image->Width - 1);
+			FracX = SrcX - X1;
+			if (RowsOnly)  // Cosine interpolation
+				FracX = (1.0 - cos(FracX * IL_PI)) * .5;
+			X2 = IL_MIN(X1 + 1, Image->Width - 1);
+
+			for (c = 0; c < Bpp; c++) {
+				*Dest++ = iStore<T>(
+					(1.0 - FracX) * (1.0 - FracY) * Src[Y1 * SrcBps + X1 * Bpp + c] +
+					(1.0 - FracX) * FracY * Src[Y2 * SrcBps + X1 * Bpp + c] +
+					FracX * (1.0 - FracY) * Src[Y1 * SrcBps + X2 * Bpp + c] +
+					FracX * FracY * Src[Y2 * SrcBps + X2 * Bpp + c]);
 			}
-			break;
+		}
 	}
 
-	return Scaled;
+	return;
 }
 
 
-// Rewrote using an algorithm described by Paul Nettle at
-//  http://www.gamedev.net/reference/articles/article669.asp.
-ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+static ILimage *iInterpolateType(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILboolean RowsOnly)
 {
-	ILfloat	ul, ll, ur, lr;
-	ILfloat	FracX, FracY;
-	ILfloat	SrcX, SrcY;
-	ILuint	iSrcX, iSrcY, iSrcXPlus1, iSrcYPlus1, ulOff, llOff, urOff, lrOff;
-
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
+	switch (Image->Type)
 	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					// Calculate where we want to choose pixels from in our source image.
-					SrcX = (ILfloat)x / (ILfloat)ScaleX;
-					SrcY = (ILfloat)y / (ILfloat)ScaleY;
-					// Integer part of SrcX and SrcY
-					iSrcX = (ILuint)floor(SrcX);
-					iSrcY = (ILuint)floor(SrcY);
-					// Fractional part of SrcX and SrcY
-					FracX = SrcX - (ILfloat)(iSrcX);
-					FracY = SrcY - (ILfloat)(iSrcY);
-
-					// We do not want to go past the right edge of the image or past the last line in the image,
-					//  so this takes care of that.  Normally, iSrcXPlus1 is iSrcX + 1, but if this is past the
-					//  right side, we have to bring it back to iSrcX.  The same goes for iSrcYPlus1.
-					if (iSrcX < Image->Width - 1)
-						iSrcXPlus1 = iSrcX + 1;
-					else 
-						iSrcXPlus1 = iSrcX;
-					if (iSrcY < Image->Height - 1)
-						iSrcYPlus1 = iSrcY + 1;
-					else
-						iSrcYPlus1 = iSrcY;
-
-					// Find out how much we want each of the four pixels contributing to the final values.
-					ul = (1.0f - FracX) * (1.0f - FracY);
-					ll = (1.0f - FracX) * FracY;
-					ur = FracX * (1.0f - FracY);
-					lr = FracX * FracY;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						// We just calculate the offsets for each pixel here...
-						ulOff = iSrcY * Image->Bps + iSrcX * Image->Bpp + c;
-						llOff = iSrcYPlus1 * Image->Bps + iSrcX * Image->Bpp + c;
-						urOff = iSrcY * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-						lrOff = iSrcYPlus1 * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-
-						// ...and then we do the actual interpolation here.
-						Scaled->Data[y * Scaled->Bps + x * Scaled->Bpp + c] = (ILubyte)(
-							ul * Image->Data[ulOff] + ll * Image->Data[llOff] + ur * Image->Data[urOff] + lr * Image->Data[lrOff]);
-					}
-				}
-			}
+		case IL_BYTE:
+			iInterpolate<ILbyte>(Image, Scaled, Width, Height, RowsOnly);
 			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			Height--;  // Only use regular Height once in the following loop.
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][c] = t3 * ShortPtr[NewY1 + NewX1 + c] +
-							t2 * ShortPtr[NewY1 + NewX2 + c];
-
-						Table[1][c] = t3 * ShortPtr[NewY2 + NewX1 + c] +
-							t2 * ShortPtr[NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t3 = (1.0 - t1);
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[Size + c] =
-							(ILushort)(t3 * Table[0][c] + t1 * Table[1][c]);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * SclBps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					SShortPtr[Size + c] = (ILushort)((1.0 - f) * ShortPtr[NewY1 + NewX1 + c] +
-						f * ShortPtr[NewY1 + NewX2 + c]);
-				}
-			}
+		case IL_UNSIGNED_BYTE:
+			iInterpolate<ILubyte>(Image, Scaled, Width, Height, RowsOnly);
 			break;
+		case IL_SHORT:
+			iInterpolate<ILshort>(Image, Scaled, Width, Height, RowsOnly);
+			break;
+		case IL_UNSIGNED_SHORT:
+			iInterpolate<ILushort>(Image, Scaled, Width, Height, RowsOnly);
+			break;
+		case IL_INT:
+			iInterpolate<ILint>(Image, Scaled, Width, Height, RowsOnly);
+			break;
+		case IL_UNSIGNED_INT:
+			iInterpolate<ILuint>(Image, Scaled, Width, Height, RowsOnly);
+			break;
+		case IL_FLOAT:
+			iInterpolate<ILfloat>(Image, Scaled, Width, Height, RowsOnly);
+			break;
+		case IL_DOUBLE:
+			iInterpolate<ILdouble>(Image, Scaled, Width, Height, RowsOnly);
+			break;
+		default:
+			return iluScale2DNear_(Image, Scaled, Width, Height);
+	}
 
-		case 4:
-			if (Image->Type != IL_FLOAT) {
-				IntPtr = (ILuint*)Image->Data;
-				SIntPtr = (ILuint*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX = Width / ScaleX;
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						t3 = (1.0 - t2);
-						t4 = t1 * NewX;
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Table[0][c] = t3 * IntPtr[NewY1 + NewX1 + c] +
-								t2 * IntPtr[NewY1 + NewX2 + c];
-
-							Table[1][c] = t3 * IntPtr[NewY2 + NewX1 + c] +
-								t2 * IntPtr[NewY2 + NewX2 + c];
-						}
-
-						// Linearly interpolate between the table values.
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-						t3 = (1.0 - t1);
-						Size = y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[Size + c] =
-								(ILuint)(t3 * Table[0][c] + t1 * Table[1][c]);
-						}
-					}
-				}
-
-				// Calculate the last row.
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-					Size = Height * SclBps + x * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * IntPtr[NewY1 + NewX1 + c] +
-							f * IntPtr[NewY1 + NewX2 + c]);
-					}
-				}
-
-			}
-
-			else {  // IL_FLOAT
-				FloatPtr = (ILfloat*)Image->Data;
-				SFloatPtr = (ILfloat*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-
-				for (y = 0; y < Height; y++) {
-
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-
-					for (x = 0; x < Width; x++) {
-
-						NewX = Width / ScaleX;
-
-						t1 = x / (ILdouble)Width;
-
-						t4 = t1 * Width;
-
-						t2 = t4 - (ILuint)(t4);
-
-						t3 = (1.0 - t2);
-
-						t4 = t1 * NewX;
-
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							Table[0][c] = t3 * FloatPtr[NewY1 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY1 + NewX2 + c];
-
-
-
-							Table[1][c] = t3 * FloatPtr[NewY2 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY2 + NewX2 + c];
-
-						}
-
-
-
-						// Linearly interpolate between the table values.
-
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-
-						t3 = (1.0 - t1);
-
-						Size = y * SclBps + x * Scaled->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							SFloatPtr[Size + c] =
-
-								(ILfloat)(t3 * Table[0][c] + t1 * Table[1][c]);
-
-						}
-
-					}
-
-				}
-
-
-
-				// Calculate the last row.
-
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-
-				for (x = 0; x < Width; x++) {
-
-					NewX = Width / ScaleX;
-
-					t1 = x / (ILdouble)Width;
-
-					t4 = t1 * Width;
-
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-
-
-					Size = Height * SclBps + x * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-
-						SFloatPtr[Size + c] = (ILfloat)((1.0 - f) * FloatPtr[NewY1 + NewX1 + c] +
-
-							f * FloatPtr[NewY1 + NewX2 + c]);
-
-					}
+	return Scaled;
+}
 
-				}
 
-			}
+ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+{
+	return iInterpolateType(Image, Scaled, Width, Height, IL_TRUE);
+}
 
-			break;
-	}
 
-	return Scaled;
+ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+{
+	return iInterpolateType(Image, Scaled, Width, Height, IL_FALSE);
 }
diff --git a/DevIL/src-ILU/src/ilu_scale3d.cpp b/DevIL/src-ILU/src/ilu_scale3d.cpp
index 00b08e0..ff71e70 100644
--- a/DevIL/src-ILU/src/ilu_scale3d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale3d.cpp
@@ -53,73 +53,20 @@ ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 
 ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Scaled->Data[NewZ1 + NewY1 + NewX1 + c] =
-								Image->Data[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SShortPtr[NewZ1 + NewY1 + NewX1 + c] =
-								ShortPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
+	Size = Image->Bpp * Image->Bpc;
 
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[NewZ1 + NewY1 + NewX1 + c] =
-								IntPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
+	for (z = 0; z < Depth; z++) {
+		NewZ1 = z * Scaled->SizeOfPlane;
+		NewZ2 = IL_MIN((ILuint)(z / ScaleZ), Image->Depth - 1) * Image->SizeOfPlane;
+		for (y = 0; y < Height; y++) {
+			NewY1 = y * Scaled->Bps;
+			NewY2 = IL_MIN((ILuint)(y / ScaleY), Image->Height - 1) * Image->Bps;
+			for (x = 0; x < Width; x++) {
+				NewX1 = x * Size;
+				NewX2 = IL_MIN((ILuint)(x / ScaleX), Image->Width - 1) * Size;
+				memcpy(Scaled->Data + NewZ1 + NewY1 + NewX1, Image->Data + NewZ2 + NewY2 + NewX2, Size);
 			}
-			break;
+		}
 	}
 
 	return Scaled;
-- 
2.43.0


From 9b3ca32417992eb1323781c4869fefadb9d1cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 084/121] fix: DDS and VTF loaders check data sizes against the
 file, build faces, mip levels and volumes correctly and undo a failed load
 [C17]

---
 DevIL/src-IL/src/il_dds.cpp | 209 ++++++++++++++++++++++--------------
 DevIL/src-IL/src/il_vtf.cpp | 120 ++++++++++++++++-----
 2 files changed, 223 insertions(+), 106 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..9f4e40a 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -178,6 +178,8 @@ ILboolean iCheckDds(DDSHEAD *Head)
 		return IL_FALSE;
 	if (Head->Width == 0 || Head->Height == 0)
 		return IL_FALSE;
+	if (Head->Height > 0x7FFFFFFF / Head->Width)
+		return IL_FALSE;
 	return IL_TRUE;
 }
 
@@ -311,12 +313,14 @@ ILubyte iCompFormatToChannelCount(ILenum Format)
 
 ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i;
+	ILuint	i, NumFaces = 0;
 	ILubyte	Bpp, Channels, Bpc;
 	ILimage *startImage;
 
-	if (IsDXT10)  //@TODO: Get this working with the DirectX 10 textures
+	if (IsDXT10) {  //@TODO: Get this working with the DirectX 10 textures
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
+	}
 
 	CompData = NULL;
 
@@ -335,10 +339,10 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		Height = Head.Height;
 		Depth = Head.Depth;
 		if (Head.ddsCaps2 & CubemapDirections[i]) {
-			if (i != 0) {
+			if (NumFaces != 0) {
 				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
 				if (Image->Faces == NULL)
-					return IL_FALSE;
+					goto face_fail;
 
 				Image = Image->Faces;
 
@@ -354,39 +358,24 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					Image->Bpp = Channels;
 				}
 
-				ilBindImage(ilGetCurName()); // Set to parent image first.
-				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				ilActiveFace(i);
+				// The faces present are chained in order, whichever are missing.
+				ilSetCurImage(Image); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
 			}
+			NumFaces++;
 
 			if (!ReadData(CompFormat, IsDXT10))
-				return IL_FALSE;
+				goto face_fail;
 
-			if (!AllocImage(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!AllocImage(CompFormat, IsDXT10))
+				goto face_fail;
 
 			Image->CubeFlags = CubemapDirections[i];
 
-			if (!DdsDecompress(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!DdsDecompress(CompFormat, IsDXT10))
+				goto face_fail;
 
-			if (!ReadMipmaps(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!ReadMipmaps(CompFormat, IsDXT10))
+				goto face_fail;
 		}
 	}
 
@@ -395,8 +384,22 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		CompData = NULL;
 	}
 
+	if (NumFaces == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
+	ilSetCurImage(startImage);
 	ilBindImage(ilGetCurName());  // Set to parent image first.
 	return ilFixImage();
+
+face_fail:
+	if (CompData) {
+		ifree(CompData);
+		CompData = NULL;
+	}
+	ilSetCurImage(startImage);
+	return IL_FALSE;
 }
 
 
@@ -455,6 +458,8 @@ ILboolean iLoadDdsInternal()
 
 	// Needed for DXT10?
 	Check16BitComponents(&Head);
+	if (!IsDXT10 && CompFormat != PF_ARGB)
+		Has16BitComponents = IL_FALSE;  // Only ARGB images get 16-bit channels.
 
 	// Microsoft bug, they're not following their own documentation.
 	if (!(Head.Flags1 & (DDS_LINEARSIZE | DDS_PITCH))
@@ -479,6 +484,7 @@ ILboolean iLoadDdsInternal()
 
 	if (!ReadData(CompFormat, IsDXT10))
 		return IL_FALSE;
+
 	if (!AllocImage(CompFormat, IsDXT10)) {
 		if (CompData) {
 			ifree(CompData);
@@ -823,12 +829,65 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 }
 
 
+// How much data the current image takes up in the file (0 if that cannot be).
+ILuint DdsDataSize(ILuint CompFormat, ILboolean IsDXT10)
+{
+	ILuint64	Blocks, Pixels;
+	ILuint64	Need;
+
+	Blocks = (ILuint64)((Width + 3) / 4) * ((Height + 3) / 4);
+	Pixels = (ILuint64)Width * Height;
+	if (Depth < 1 || Pixels > 0x7FFFFFFF / (ILuint)Depth)
+		return 0;
+	Blocks *= Depth;
+	Pixels *= Depth;
+
+	if (IsDXT10)
+		Need = Pixels * (Has16BitComponents ? 8 : 4);
+	else switch (CompFormat)
+	{
+		case PF_ARGB:
+		case PF_RGB:
+		case PF_LUMINANCE:
+		case PF_LUMINANCE_ALPHA:
+			Need = (Head.RGBBitCount <= 32) ? Pixels * (Head.RGBBitCount / 8) : 0;
+			break;
+
+		case PF_DXT1:
+		case PF_ATI1N:
+			Need = Blocks * 8;
+			break;
+
+		case PF_R16F:
+			Need = Pixels * 2;
+			break;
+		case PF_G16R16F:
+		case PF_R32F:
+			Need = Pixels * 4;
+			break;
+		case PF_A16B16G16R16:
+		case PF_A16B16G16R16F:
+		case PF_G32R32F:
+			Need = Pixels * 8;
+			break;
+		case PF_A32B32G32R32F:
+			Need = Pixels * 16;
+			break;
+
+		default:
+			Need = Blocks * 16;
+			break;
+	}
+
+	return Need > 0x7FFFFFF0 ? 0 : (ILuint)Need;
+}
+
+
 // Reads the compressed data
 ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	Bps;
-	ILint	y, z;
-	ILubyte	*Temp;
+	ILuint64	Size;
+	ILuint		Need;
 
 	if (CompData) {
 		ifree(CompData);
@@ -837,45 +896,36 @@ ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 
 	if (Head.Flags1 & DDS_LINEARSIZE) {
 		//Head.LinearSize = Head.LinearSize * Depth;
-
-		CompData = (ILubyte*)ialloc(Head.LinearSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
-
-		if (iread(CompData, 1, Head.LinearSize) != (ILuint)Head.LinearSize) {
-			ifree(CompData);
-			CompData = NULL;
-			return IL_FALSE;
-		}
+		Size = Head.LinearSize;
 	}
 	else {
 		if (IsDXT10)
-			Bps = Head.LinearSize;  //@TODO: Head.RGBBitCount is always 0 from the texconv.exe tool?
+			Size = Head.LinearSize;  //@TODO: Head.RGBBitCount is always 0 from the texconv.exe tool?
 		else
-			Bps = Width * Head.RGBBitCount / 8;
-		CompSize = Bps * Height * Depth;
-		if (CompSize == 0) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}
+			Size = ((ILuint64)Width * Head.RGBBitCount & 0xFFFFFFFF) / 8;
+		Size = (Size & 0x7FFFFFFF) * Height;
+		if (Size < 0x7FFFFFFF)
+			Size *= Depth;
+	}
 
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			return IL_FALSE;
-		}
+	Need = DdsDataSize(CompFormat, IsDXT10);
+	if (Need == 0 || Size == 0 || Size > 0x7FFFFFF0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	// The header cannot claim less than what its image takes up.
+	CompSize = IL_MAX((ILuint)Size, Need);
 
-		Temp = CompData;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				if (iread(Temp, 1, Bps) != Bps) {
-					ifree(CompData);
-					CompData = NULL;
-					return IL_FALSE;
-				}
-				Temp += Bps;
-			}
-		}
+	// Pixels are read four bytes at a time.
+	CompData = (ILubyte*)icalloc(CompSize + 4, 1);
+	if (CompData == NULL) {
+		return IL_FALSE;
+	}
+
+	if (iread(CompData, 1, CompSize) != CompSize) {
+		ifree(CompData);
+		CompData = NULL;
+		return IL_FALSE;
 	}
 
 	return IL_TRUE;
@@ -955,11 +1005,11 @@ ILboolean AllocImage(ILuint CompFormat, ILboolean IsDXT10)
 				if (!ilTexImage(Width, Height, Depth, channels, format, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
 				if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && CompData) {
-					iCurImage->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
+					iCurImage->DxtcData = (ILubyte*)ialloc(CompSize);
 					if (iCurImage->DxtcData == NULL)
 						return IL_FALSE;
 					iCurImage->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-					iCurImage->DxtcSize = Head.LinearSize;
+					iCurImage->DxtcSize = CompSize;
 					memcpy(iCurImage->DxtcData, CompData, iCurImage->DxtcSize);
 				}
 				break;
@@ -1071,7 +1121,7 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 {
 	ILuint	i, CompFactor=0;
 	ILubyte	Bpp, Channels, Bpc;
-	ILimage	*StartImage, *TempImage;
+	ILimage	*StartImage;
 	ILuint	LastLinear;
 	ILuint	minW, minH;
 
@@ -1126,6 +1176,8 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		//overflow - don't let this happen:
 		Head.MipMapCount = 1;
 	}
+	if (Head.MipMapCount > 33)  // There are no more levels than the sizes have bits.
+		Head.MipMapCount = 33;
 
 	LastLinear = Head.LinearSize;
 	for (i = 0; i < Head.MipMapCount - 1; i++)
@@ -1187,11 +1239,11 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 			goto mip_fail;
 
 		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && isCompressed == IL_TRUE && CompData) {
-			Image->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
+			Image->DxtcData = (ILubyte*)ialloc(CompSize);
 			if (Image->DxtcData == NULL)
-				return IL_FALSE;
+				goto mip_fail;
 			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
-			Image->DxtcSize = Head.LinearSize;
+			Image->DxtcSize = CompSize;
 			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
 		}
 
@@ -1205,14 +1257,9 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 	return IL_TRUE;
 
 mip_fail:
+	Head.LinearSize = LastLinear;
 	Image = StartImage;
-	StartImage = StartImage->Mipmaps;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
 	return IL_FALSE;
 }
@@ -1351,7 +1398,7 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 		return IL_FALSE;
 	CorrectPreMult();
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
@@ -1487,6 +1534,7 @@ ILboolean Decompress3Dc()
 	Temp = CompData;
 	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				Temp2 = Temp + 8;
@@ -1578,6 +1626,7 @@ ILboolean DecompressAti1n()
 	Temp = CompData;
 	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				//Read palette
@@ -1998,7 +2047,7 @@ ILboolean DecompressARGB(ILuint CompFormat)
 				Image->Data[i+1] = Image->Data[i+1] ? 0xFF : 0x00;
 			}
 			else if (AlphaL >= 4) {
-				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+3] >> 4);
+				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+1] >> 4);
 			}
 		}
 	}
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..78718c9 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -214,6 +214,36 @@ ILboolean ilLoadVtfL(const void *Lump, ILuint Size)
 }
 
 
+// How many bytes the file has for an image in the given format.
+static ILuint VtfDataSize(ILimage *Image, ILuint Format)
+{
+	ILuint	Blocks = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * Image->Depth;
+	ILuint	Pixels = Image->Width * Image->Height * Image->Depth;
+
+	switch (Format)
+	{
+		case IMAGE_FORMAT_DXT1:
+		case IMAGE_FORMAT_DXT1_ONEBITALPHA:
+			return Blocks * 8;
+		case IMAGE_FORMAT_DXT3:
+		case IMAGE_FORMAT_DXT5:
+			return Blocks * 16;
+		case IMAGE_FORMAT_BGRX8888:
+			return Pixels * 4;
+		case IMAGE_FORMAT_RGBA16161616F:
+			return Pixels * 8;
+		case IMAGE_FORMAT_RGB565:
+		case IMAGE_FORMAT_BGR565:
+		case IMAGE_FORMAT_BGRA5551:
+		case IMAGE_FORMAT_BGRX5551:
+		case IMAGE_FORMAT_BGRA4444:
+			return Pixels * 2;
+	}
+
+	return Image->SizeOfData;
+}
+
+
 // Internal function used to load the VTF.
 ILboolean iLoadVtfInternal(void)
 {
@@ -224,7 +254,8 @@ ILboolean iLoadVtfInternal(void)
 	ILuint		SizeOfData, Channels, k;
 	ILubyte		*CompData = NULL, SwapVal, *Data16Bit, *Temp, NumFaces;
 	VTFHEAD		Head;
-	ILuint		CurName;
+	ILuint		CurName, Pos, FileSize;
+	ILuint64	Needed;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -238,6 +269,12 @@ ILboolean iLoadVtfInternal(void)
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
+	if (Head.Frames == 0 || Head.MipmapCount == 0) {  // There would not be any data.
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	if (Head.MipmapCount > 17)  // There are no more levels than the sizes have bits.
+		Head.MipmapCount = 17;
 
 	if (Head.Flags & TEXTUREFLAGS_ENVMAP) {
 		// If we have a spherical map in addition to the 6 sides of the cubemap, FirstFrame's bits
@@ -363,7 +400,22 @@ ILboolean iLoadVtfInternal(void)
 	// The origin should be in the upper left.
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	// Create any mipmaps.
-	VtfInitFacesMipmaps(iCurImage, NumFaces, &Head);
+	if (!VtfInitFacesMipmaps(iCurImage, NumFaces, &Head))
+		return IL_FALSE;
+
+	// Every frame and face takes up as much as this one, so do not even start if the file is too short.
+	Pos = itell();
+	iseek(0, IL_SEEK_END);
+	FileSize = itell();
+	iseek(Pos, IL_SEEK_SET);
+	Needed = 0;
+	for (Image = iCurImage; Image != NULL; Image = Image->Mipmaps)
+		Needed += VtfDataSize(Image, Head.HighResImageFormat);
+	Needed *= (ILuint64)Head.Frames * NumFaces;
+	if (FileSize < Pos || Needed > FileSize - Pos) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	// Create our animation chain
 	BaseImage = Image = iCurImage;  // Top-level image
@@ -376,7 +428,8 @@ ILboolean iLoadVtfInternal(void)
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 		// Create our faces and mipmaps for each frame.
-		VtfInitFacesMipmaps(Image, NumFaces, &Head);
+		if (!VtfInitFacesMipmaps(Image, NumFaces, &Head))
+			return IL_FALSE;
 	}
 
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
@@ -387,9 +440,8 @@ ILboolean iLoadVtfInternal(void)
 			for (Face = 0; Face < NumFaces; Face++) {
 				//@TODO: Would probably be quicker to do the linked list traversal manually here.
 				ilBindImage(CurName);
-				ilActiveImage(Frame);
-				ilActiveFace(Face);
-				ilActiveMipmap(Mipmap);
+				if (!ilActiveImage(Frame) || !ilActiveFace(Face) || !ilActiveMipmap(Mipmap))
+					goto vtf_fail;
 				Image = iCurImage;
 
 				switch (Head.HighResImageFormat)
@@ -398,55 +450,64 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_DXT1:
 					case IMAGE_FORMAT_DXT1_ONEBITALPHA:
 						// The block size is 8.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth / 2, 8);
+						SizeOfData = VtfDataSize(Image, Head.HighResImageFormat);
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
 						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+							goto vtf_fail;
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						// Keep a copy of the DXTC data if the user wants it.
+						bVtf = DecompressDXT1(Image, CompData);
 						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
-							Image->DxtcFormat = IL_DXT5;
+							Image->DxtcFormat = IL_DXT1;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT1(Image, CompData);
 						break;
 
 					// DXT3 compression
 					case IMAGE_FORMAT_DXT3:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
+						SizeOfData = VtfDataSize(Image, Head.HighResImageFormat);
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+							goto vtf_fail;
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						// Keep a copy of the DXTC data if the user wants it.
+						bVtf = DecompressDXT3(Image, CompData);
 						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT3;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT3(Image, CompData);
 						break;
 
 					// DXT5 compression
 					case IMAGE_FORMAT_DXT5:
 						// The block size is 16.
-						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
+						SizeOfData = VtfDataSize(Image, Head.HighResImageFormat);
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 						if (CompData == NULL)
-							return IL_FALSE;
-						iread(CompData, 1, SizeOfData);
+							goto vtf_fail;
+						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
+							bVtf = IL_FALSE;
+							break;
+						}
 						// Keep a copy of the DXTC data if the user wants it.
+						bVtf = DecompressDXT5(Image, CompData);
 						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 							Image->DxtcSize = SizeOfData;
 							Image->DxtcData = CompData;
 							Image->DxtcFormat = IL_DXT5;
 							CompData = NULL;
 						}
-						bVtf = DecompressDXT5(Image, CompData);
 						break;
 
 					// Uncompressed BGR(A) data (24-bit and 32-bit)
@@ -479,7 +540,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 3;
 						Temp = CompData = (ILubyte*)ialloc(SizeOfData / 3 * 4);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_fail;
 						if (iread(CompData, 1, SizeOfData / 3 * 4) != SizeOfData / 3 * 4) {
 							bVtf = IL_FALSE;
 							break;
@@ -498,7 +559,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * Image->Bpp * 2;
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_fail;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -536,7 +597,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_fail;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -557,7 +618,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_fail;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -576,6 +637,8 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
+						if (CompData == NULL)
+							goto vtf_fail;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -593,7 +656,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 4;
 						Temp = CompData = (ILubyte*)ialloc(SizeOfData / 2);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_fail;
 						if (iread(CompData, 1, SizeOfData / 2) != SizeOfData / 2) {
 							bVtf = IL_FALSE;
 							break;
@@ -611,14 +674,19 @@ ILboolean iLoadVtfInternal(void)
 
 				ifree(CompData);
 				CompData = NULL;
-				if (bVtf == IL_FALSE)  //@TODO: Do we need to do any cleanup here?
-					return IL_FALSE;
+				if (bVtf == IL_FALSE)
+					goto vtf_fail;
 			}
 		}
 	}
 
 	ilBindImage(CurName);  // Set to parent image first.
 	return ilFixImage();
+
+vtf_fail:
+	ifree(CompData);
+	ilBindImage(CurName);  // The parent image stays the current one.
+	return IL_FALSE;
 }
 
 
-- 
2.43.0


From 677df3ccdd1d78613395384cd93e21a8344ccea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 085/121] fix: GIF, XPM, UTX, TPL, CUT, PCX, PNM and bit
 readers check palette bounds, sizes and the end of the file [C17]

---
 DevIL/src-IL/src/il_bits.cpp |   4 +-
 DevIL/src-IL/src/il_cut.cpp  |   4 +-
 DevIL/src-IL/src/il_gif.cpp  |  69 ++++++++++++++++--------
 DevIL/src-IL/src/il_pcx.cpp  |   5 ++
 DevIL/src-IL/src/il_pnm.cpp  |  14 +++--
 DevIL/src-IL/src/il_tpl.cpp  |  85 +++++++++++++++++++++++------
 DevIL/src-IL/src/il_utx.cpp  | 102 ++++++++++++++++++++++++-----------
 DevIL/src-IL/src/il_xpm.cpp  |  44 ++++++++++++---
 8 files changed, 241 insertions(+), 86 deletions(-)

diff --git a/DevIL/src-IL/src/il_bits.cpp b/DevIL/src-IL/src/il_bits.cpp
index 6359aa1..24304d8 100644
--- a/DevIL/src-IL/src/il_bits.cpp
+++ b/DevIL/src-IL/src/il_bits.cpp
@@ -130,9 +130,9 @@ ILint bread(void *Buffer, ILuint Size, ILuint Number, BITFILE *BitFile)
 
 	while (BuffPos < Count) {
 		if (BitFile->ByteBitOff < 0 || BitFile->ByteBitOff > 7) {
-			BitFile->ByteBitOff = 7;
 			if (iread(&BitFile->Buff, 1, 1) != 1)  // Reached eof or error...
 				return BuffPos;
+			BitFile->ByteBitOff = 7;
 		}
 
 		*((ILubyte*)(Buffer) + BuffPos) = (ILubyte)!!(BitFile->Buff & (1 << BitFile->ByteBitOff));
@@ -160,9 +160,9 @@ ILuint breadVal(ILuint NumBits, BITFILE *BitFile)
 	while (BuffPos < NumBits) {
 		Buffer <<= 1;
 		if (BitFile->ByteBitOff < 0 || BitFile->ByteBitOff > 7) {
-			BitFile->ByteBitOff = 7;
 			if (iread(&BitFile->Buff, 1, 1) != 1)  // Reached eof or error...
 				return BuffPos;
+			BitFile->ByteBitOff = 7;
 		}
 
 		Buffer = Buffer + (ILubyte)!!(BitFile->Buff & (1 << BitFile->ByteBitOff));
diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index b5e9e91..d63fdf1 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -115,12 +115,12 @@ ILboolean iLoadCutInternal()
 		if (Count & BIT_7) {  // rle-compressed
 			ClearBits(Count, BIT_7);
 			Run = igetc();
-			for (j = 0; j < Count; j++) {
+			for (j = 0; j < Count && i < Size; j++) {
 				iCurImage->Data[i++] = Run;
 			}
 		}
 		else {  // run of pixels
-			for (j = 0; j < Count; j++) {
+			for (j = 0; j < Count && i < Size; j++) {
 				iCurImage->Data[i++] = igetc();
 			}
 		}
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..6f9f5ba 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -174,8 +174,10 @@ ILboolean iLoadGifInternal()
 		}
 	}
 
-	if (!GetImages(&GlobalPal, &Header))
+	if (!GetImages(&GlobalPal, &Header)) {
+		ifree(GlobalPal.Palette);
 		return IL_FALSE;
+	}
 
 	if (GlobalPal.Palette && GlobalPal.PalSize)
 		ifree(GlobalPal.Palette);
@@ -188,7 +190,7 @@ ILboolean iLoadGifInternal()
 
 ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage)
 {
-	ILuint PalSize, PalOffset = 0;
+	ILuint PalSize, PalOffset = 0, PrevBpp = 0, i;
 
 	// If we have a local palette and have to use the previous frame as well,
 	//  we have to copy the palette from the previous frame, in addition
@@ -202,8 +204,13 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-		PalSize = PalSize + PrevImage->Pal.PalSize;
-		PalOffset = PrevImage->Pal.PalSize;
+		PrevBpp = ilGetBppPal(PrevImage->Pal.PalType);
+		if (PrevBpp < 3) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+		PalOffset = PrevImage->Pal.PalSize / PrevBpp * 3;
+		PalSize = PalSize + PalOffset;
 	}
 	if (PalSize > 256 * 3) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -216,11 +223,13 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 	Pal->Palette = (ILubyte*)ialloc(256 * 3);
 	if (Pal->Palette == NULL)
 		return IL_FALSE;
-	if (UsePrevPal)
-		memcpy(Pal->Palette, PrevImage->Pal.Palette, PrevImage->Pal.PalSize);  // Copy the old palette over.
-	if (iread(Pal->Palette + PalOffset, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
+	for (i = 0; i < PalOffset; i++)  // Copy the old palette over.
+		Pal->Palette[i] = PrevImage->Pal.Palette[i / 3 * PrevBpp + i % 3];
+	if (iread(Pal->Palette + PalOffset, 1, PalSize - PalOffset) != PalSize - PalOffset) {  // Read the new palette.
 		ifree(Pal->Palette);
 		Pal->Palette = NULL;
+		Pal->PalSize = 0;
+		Pal->PalType = IL_PAL_NONE;
 		return IL_FALSE;
 	}
 
@@ -316,7 +325,8 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 		if (ImageDesc.ImageInfo & (1 << 7)) {
 			ILboolean UsePrevPal = IL_FALSE;
 			if (DisposalMethod == 1 && NumImages != 0) {  // Cannot be the first image for this.
-				PalOffset = PrevImage->Pal.PalSize;
+				if (PrevImage->Pal.Palette)
+					PalOffset = PrevImage->Pal.PalSize / ilGetBppPal(PrevImage->Pal.PalType);
 				UsePrevPal = IL_TRUE;
 			}
 			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal, UsePrevPal, PrevImage)) {
@@ -324,6 +334,7 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 			}
 		} else {
 			if (!iCopyPalette(&Image->Pal, GlobalPal)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				goto error_clean;
 			}
 		}
@@ -365,8 +376,10 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 			goto error_clean;
 	}
 
-	if (BaseImage)  // Was not able to load any images in...
+	if (BaseImage) {  // Was not able to load any images in...
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	return IL_TRUE;
 
@@ -544,6 +557,9 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 	ILint	c, size;
 	ILuint	i = 0, Read = 0, j = 0;
 	ILubyte	*DataPtr = Data;
+	// What a frame has outside the image is left out.
+	ILuint	ClipWidth  = Image->OffX < Image->Width  ? Image->Width  - Image->OffX : 0;
+	ILuint	ClipHeight = Image->OffY < Image->Height ? Image->Height - Image->OffY : 0;
 
 	if (!Gfx->Used)
 		DisposalMethod = (Gfx->Packed & 0x1C) >> 2;
@@ -587,25 +603,29 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 
 			if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == c && (Gfx->Packed & 0x1) != 0)
 				i++;
-			else if (i < Width)
-				DataPtr[i++] = c + PalOffset;
+			else if (i < Width) {
+				if (i < ClipWidth && j < ClipHeight)
+					DataPtr[i] = c + PalOffset;
+				i++;
+			}
 
 			if (i == Width)
 			{
-				DataPtr += Stride;
 				i = 0;
 				Read += 1;
-                ++j;
-                if (j >= Height) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
+				++j;
+				DataPtr = Data + j * Stride;
 			}
 		}
 		else
 		{
 			code = c;
             //BG-2007-01-10: several fixes for incomplete GIFs
+			if (code > slot)  // Not even the code to be defined next.
+			{
+				cleanUpGifLoadState();
+				return IL_FALSE;
+			}
 			if (code >= slot)
 			{
 				code = oc;
@@ -616,8 +636,10 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
                 *sp++ = fc;
 			}
 
-            if (code >= MAX_CODES)
-                return IL_FALSE; 
+            if (code >= MAX_CODES) {
+                cleanUpGifLoadState();
+                return IL_FALSE;
+            }
                 while (code >= newcodes)
 				{
                     if (sp >= stack + MAX_CODES)
@@ -652,8 +674,11 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 				sp--;
 				if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == *sp && (Gfx->Packed & 0x1) != 0)
 					i++;
-				else if (i < Width)
-					DataPtr[i++] = *sp + PalOffset;
+				else if (i < Width) {
+					if (i < ClipWidth && j < ClipHeight)
+						DataPtr[i] = *sp + PalOffset;
+					i++;
+				}
 
 				if (i == Width)
 				{
@@ -692,7 +717,7 @@ ILboolean RemoveInterlace(ILimage *image)
 
 	//changed 20041230: images with offsety != 0 were not
 	//deinterlaced correctly before...
-	for (i = 0; i < image->OffY; i++, j++) {
+	for (i = 0; i < image->OffY && i < image->Height; i++, j++) {
 		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
 	}
 
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index abf8917..0fc09a4 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -420,6 +420,11 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 	else if (Header->NumPlanes == 4 && Header->Bpp == 1){   // 4-bit images
 		//changed decoding 2003-09-10 (was buggy)...could need a speedup
 
+		if (Header->Bps * 8u < iCurImage->Width) {  // The scan lines would be too short.
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+
 		Bps = Header->Bps * Header->NumPlanes * 8;
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
 		ScanLine = (ILubyte*)ialloc(Bps);
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index 2e1a847..38bd70b 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -368,8 +368,6 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 		return NULL;
 	}
 
-	Size = Info->Width * Info->Height * Info->Bpp;
-
 	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), Info->Bpp == 1 ? IL_LUMINANCE : IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
@@ -385,6 +383,7 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 	ILuint size = itell();
 	iseek(size-Size,IL_SEEK_SET);
 	*/
+	Size = iCurImage->SizeOfData;
 	if (iread(iCurImage->Data, 1, Size) != Size) {
 		return NULL;
 	}
@@ -558,15 +557,19 @@ ILboolean iGetWord(ILboolean final)
 	ILboolean Started = IL_FALSE;
 	ILboolean Looping = IL_TRUE;
 
-	if (ieof())
+	if (ieof()) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	while (Looping)
 	{
 		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
 		{
-			if (WordPos >= MAX_BUFFER - 1)  // We have hit the maximum line length.
+			if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
+				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
+			}
 
 			if (!isalnum(Current) && Current != '_') {
 				if (Started) {
@@ -597,7 +600,8 @@ ILboolean iGetWord(ILboolean final)
 			if (Current != ' ')
 				break;
 		}
-		iseek(-1, IL_SEEK_CUR);
+		if (Current != IL_EOF)  // There is nothing to put back at the end of the file.
+			iseek(-1, IL_SEEK_CUR);
 
 		if (WordPos > 0)
 			break;
diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index bc254fa..cb41c80 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -228,7 +228,7 @@ ILboolean iLoadTplInternal(void)
 		// It looks like files actually have n-1 images, with the nth one having 0 height and width.
 		if (Width == 0 || Height == 0) {
 			// If this is our first image, however, we error out.
-			if (Image == iCurImage) {
+			if (n == 0) {
 				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
 			}
@@ -262,7 +262,7 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA4:
 			case TPL_IA8:
 				Format = IL_LUMINANCE_ALPHA;
-				Bpp = 1;
+				Bpp = 2;
 				break;
 			case TPL_RGB565:
 				Format = IL_RGB;
@@ -283,7 +283,7 @@ ILboolean iLoadTplInternal(void)
 				break;
 			case TPL_CI14X2:
 				Format = IL_RGBA;
-				Bpp = 3;
+				Bpp = 4;
 				break;
 			case TPL_CMP:
 				Format = IL_RGBA;
@@ -295,7 +295,7 @@ ILboolean iLoadTplInternal(void)
 				return IL_FALSE;
 		}
 
-		if (Image == iCurImage) {  // This is our first image.
+		if (n == 0) {  // This is our first image.
 			if (!ilTexImage(Width, Height, 1, Bpp, Format, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 		}
@@ -312,6 +312,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_I4:
 				// 8x8 tiles of 4-bit intensity values
 				for (y = 0; y < Image->Height; y += 8) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 8; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
@@ -326,9 +330,9 @@ ILboolean iLoadTplInternal(void)
 								Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
 								DataOff++;
 								// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-								if ((x + xBlock) >= Image->Width)
+								if ((x + xBlock + 1) >= Image->Width)
 									continue;  // Already read the pad byte.
-								Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
+								Image->Data[DataOff] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
 								DataOff++;
 							}
 						}
@@ -339,6 +343,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_I8:
 				// 8x4 tiles of 8-bit intensity values
 				for (y = 0; y < Image->Height; y += 4) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
@@ -362,6 +370,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA4:
 				// 8x4 tiles of 4-bit intensity and 4-bit alpha values
 				for (y = 0; y < Image->Height; y += 4) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
@@ -369,7 +381,7 @@ ILboolean iLoadTplInternal(void)
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 8; xBlock += 2) {
+							for (xBlock = 0; xBlock < 8; xBlock++) {
 								BytePixel = igetc();
 								if ((x + xBlock) >= Image->Width)
 									continue;  // Already read the pad byte.
@@ -385,6 +397,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_IA8:
 				// 4x4 tiles of 8-bit intensity and 8-bit alpha values
 				for (y = 0; y < Image->Height; y += 4) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
@@ -392,7 +408,7 @@ ILboolean iLoadTplInternal(void)
 								continue;
 							}
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4; xBlock += 2) {
+							for (xBlock = 0; xBlock < 4; xBlock++) {
 								if ((x + xBlock) >= Image->Width) {
 									iseek(2, IL_SEEK_CUR);  // Skip the pad bytes.
 									continue;
@@ -409,6 +425,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_RGB565:
 				// 4x4 tiles of RGB565 data
 				for (y = 0; y < Image->Height; y += 4) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
@@ -433,6 +453,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_RGB5A3:
 				// 4x4 tiles of either RGB5 or RGB4A3 depending on the MSB. 0x80
 				for (y = 0; y < Image->Height; y += 4) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							if ((y + yBlock) >= Image->Height) {
@@ -459,7 +483,7 @@ ILboolean iLoadTplInternal(void)
 									Image->Data[DataOff+2] = ((ShortPixel & 0x0078) << 1) | ((ShortPixel & 0x0078) >> 3); // Blue
 									Image->Data[DataOff+3] = ((ShortPixel & 0x07) << 5) | ((ShortPixel & 0x07) << 2) | (ShortPixel >> 1); // Alpha
 								}
-								DataOff += 3;
+								DataOff += 4;
 							}
 						}
 					}
@@ -469,6 +493,10 @@ ILboolean iLoadTplInternal(void)
 			case TPL_RGBA8:
 				// 4x4 tiles of RGBA data
 				for (y = 0; y < Image->Height; y += 4) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 4) {
 						for (yBlock = 0; yBlock < 4; yBlock++) {
 							// Skip pad bytes at the bottom of the tile if any.
@@ -486,19 +514,19 @@ ILboolean iLoadTplInternal(void)
 								}
 								Image->Data[DataOff+3] = igetc();  // Alpha
 								Image->Data[DataOff] = igetc();  // Red
-								DataOff += 3;
+								DataOff += 4;
 							}
 
 							// Then it has the GB data.
 							DataOff = Image->Bps * (y + yBlock) + Image->Bpp * x;
-							for (xBlock = 0; xBlock < 4 && x + xBlock < Image->Width; xBlock++) {
+							for (xBlock = 0; xBlock < 4; xBlock++) {
 								if ((x + xBlock) >= Image->Width) {
 									iseek(2, IL_SEEK_CUR);  // Skip pad bytes.
 									continue;
 								}
 								Image->Data[DataOff+1] = igetc();  // Green
 								Image->Data[DataOff+2] = igetc();  // Blue
-								DataOff += 3;
+								DataOff += 4;
 							}
 						}
 					}
@@ -520,6 +548,10 @@ ILboolean iLoadTplInternal(void)
 				//  Most of this ended up being copied from il_dds.c, from the DecompressDXT1 function.
 				//@TODO: Make this/that code a bit more modular.
 				for (y = 0; y < Image->Height; y += 8) {
+					if (ieof()) {  // The data has ended early.
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
 					for (x = 0; x < Image->Width; x += 8) {
 						for (yBlock = 0; yBlock < 8 && (y + yBlock) < Image->Height; yBlock += 4) {
 							for (xBlock = 0; xBlock < 8 && (x + xBlock) < Image->Width; xBlock += 4) {
@@ -600,6 +632,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 	ILuint		x, y, xBlock, yBlock, i;
 
 	NumPal = GetBigUShort();
+	if (NumPal == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	iseek(2, IL_SEEK_CUR);  // Do we need to do anything with the 'unpacked' entry?  I see nothing in the specs about it.
 	PalFormat = GetBigUInt();
 
@@ -689,6 +725,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			// 8x8 tiles of 4-bit color indices
 			//  This is the exact same code as the TPL_I4 case.
 			for (y = 0; y < Image->Height; y += 8) {
+				if (ieof()) {  // The data has ended early.
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
+				}
 				for (x = 0; x < Image->Width; x += 8) {
 					for (yBlock = 0; yBlock < 8; yBlock++) {
 						if ((y + yBlock) >= Image->Height) {
@@ -700,12 +740,12 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 							BytePixel = igetc();
 							if ((x + xBlock) >= Image->Width)
 								continue;  // Already read the pad byte.
-							Image->Data[DataOff] = (BytePixel & 0xF0) | (BytePixel & 0xF0) >> 4;
+							Image->Data[DataOff] = BytePixel >> 4;
 							DataOff++;
 							// We have to do this check again, so we do not go past the last pixel in the image (ex. 1 pixel wide image).
-							if ((x + xBlock) >= Image->Width)
+							if ((x + xBlock + 1) >= Image->Width)
 								continue;  // Already read the pad byte.
-							Image->Data[DataOff+1] = (BytePixel & 0x0F) << 4 | (BytePixel & 0x0F);
+							Image->Data[DataOff] = BytePixel & 0x0F;
 							DataOff++;
 						}
 					}
@@ -717,6 +757,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			// 8x4 tiles of 8-bit intensity values
 			//  This is the exact same code as the TPL_I8 case.
 			for (y = 0; y < Image->Height; y += 4) {
+				if (ieof()) {  // The data has ended early.
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
+				}
 				for (x = 0; x < Image->Width; x += 8) {
 					for (yBlock = 0; yBlock < 4; yBlock++) {
 						if ((y + yBlock) >= Image->Height) {
@@ -743,6 +787,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			// 4x4 tiles of 14-bit indices into a palette.  Not supported at all in DevIL, since
 			//  it has a huge palette (> 256 colors).  Convert to RGBA.
 			for (y = 0; y < Image->Height; y += 4) {
+				if (ieof()) {  // The data has ended early.
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
+				}
 				for (x = 0; x < Image->Width; x += 4) {
 					for (yBlock = 0; yBlock < 4; yBlock++) {
 						if ((y + yBlock) >= Image->Height) {
@@ -757,6 +805,10 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 							}
 							ShortPixel = GetBigUShort();
 							ShortPixel >>= 2;  // Lower 2 bits are padding bits.
+							if (ShortPixel >= NumPal) {
+								ilSetError(IL_ILLEGAL_FILE_VALUE);
+								return IL_FALSE;
+							}
 							Image->Data[DataOff] = Image->Pal.Palette[ShortPixel * PalBpp];
 							Image->Data[DataOff+1] = Image->Pal.Palette[ShortPixel * PalBpp + 1];
 							Image->Data[DataOff+2] = Image->Pal.Palette[ShortPixel * PalBpp + 2];
@@ -764,13 +816,14 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 								Image->Data[DataOff+3] = 0xFF;
 							else
 								Image->Data[DataOff+3] = Image->Pal.Palette[ShortPixel * PalBpp + 3];
-							DataOff++;
+							DataOff += 4;
 						}
 					}
 				}
 			}
 			// Get rid of the palette, since we no longer need it.
 			ifree(Image->Pal.Palette);
+			Image->Pal.Palette = NULL;
 			Image->Pal.PalType = IL_PAL_NONE;
 			Image->Pal.PalSize = 0;
 			break;
diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 4bd71ba..817b60e 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -107,13 +107,13 @@ string GetUtxName(UTXHEADER &Header)
 {
 #define NAME_MAX_LEN 256  //@TODO: Figure out if these can possibly be longer.
 	char	Name[NAME_MAX_LEN];
-	ILubyte	Length = 0;
+	ILuint	Length = 0;
 
 	// New style (Unreal Tournament) name.  This has a byte at the beginning telling
 	//  how long the string is (plus terminating 0), followed by the terminating 0. 
 	if (Header.Version >= 64) {
-		Length = igetc();
-		if (iread(Name, Length, 1) != 1)
+		Length = (ILubyte)igetc();
+		if (Length == 0 || iread(Name, Length, 1) != 1)
 			return "";
 		if (Name[Length-1] != 0)
 			return "";
@@ -127,7 +127,7 @@ string GetUtxName(UTXHEADER &Header)
 	} while (!ieof() && Name[Length-1] != 0 && Length < NAME_MAX_LEN);
 
 	// Never reached the terminating 0.
-	if (Length == NAME_MAX_LEN && Name[Length-1] != 0)
+	if (Name[Length-1] != 0)
 		return "";
 
 	return string(Name);
@@ -142,14 +142,14 @@ bool GetUtxNameTable(vector <UTXENTRYNAME> &NameEntries, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.NameOffset, IL_SEEK_SET);
 
-	NameEntries.resize(Header.NameCount);
-
-	// Read in the name table.
+	// Read in the name table.  It grows with what the file really has, not with what the header says.
 	for (NumRead = 0; NumRead < Header.NameCount; NumRead++) {
-		NameEntries[NumRead].Name = GetUtxName(Header);
-		if (NameEntries[NumRead].Name == "")
+		UTXENTRYNAME Entry;
+		Entry.Name = GetUtxName(Header);
+		if (Entry.Name == "")
 			break;
-		NameEntries[NumRead].Flags = GetLittleUInt();
+		Entry.Flags = GetLittleUInt();
+		NameEntries.push_back(Entry);
 	}
 
 	// Did not read all of the entries (most likely GetUtxName failed).
@@ -221,7 +221,7 @@ void ChangeObjectReference(ILint *ObjRef, ILboolean *IsImported)
 {
 	if (*ObjRef < 0) {
 		*IsImported = IL_TRUE;
-		*ObjRef = -*ObjRef - 1;
+		*ObjRef = -(*ObjRef + 1);
 	}
 	else if (*ObjRef > 0) {
 		*IsImported = IL_FALSE;
@@ -242,10 +242,12 @@ bool GetUtxExportTable(vector <UTXEXPORTTABLE> &ExportTable, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.ExportOffset, IL_SEEK_SET);
 
-	// Create ExportCount elements in our array.
-	ExportTable.resize(Header.ExportCount);
-
 	for (i = 0; i < Header.ExportCount; i++) {
+		if (ieof()) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return false;
+		}
+		ExportTable.push_back(UTXEXPORTTABLE());
 		ExportTable[i].Class = UtxReadCompactInteger();
 		ExportTable[i].Super = UtxReadCompactInteger();
 		ExportTable[i].Group = GetLittleUInt();
@@ -270,10 +272,12 @@ bool GetUtxImportTable(vector <UTXIMPORTTABLE> &ImportTable, UTXHEADER &Header)
 	// Go to the name table.
 	iseek(Header.ImportOffset, IL_SEEK_SET);
 
-	// Allocate the name table.
-	ImportTable.resize(Header.ImportCount);
-
 	for (i = 0; i < Header.ImportCount; i++) {
+		if (ieof()) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return false;
+		}
+		ImportTable.push_back(UTXIMPORTTABLE());
 		ImportTable[i].ClassPackage = UtxReadCompactInteger();
 		ImportTable[i].ClassName = UtxReadCompactInteger();
 		ImportTable[i].Package = GetLittleUInt();
@@ -323,6 +327,20 @@ ILuint UtxFormatToBpp(ILuint Format)
 }
 
 
+// Finds the name of the class of an export table entry (empty if the file has no such class).
+static string UtxClassName(ILint Class, vector <UTXENTRYNAME> &NameEntries, vector <UTXIMPORTTABLE> &ImportTable)
+{
+	ILint	ObjectName;
+
+	if (Class < 0 || (size_t)Class >= ImportTable.size())
+		return "";
+	ObjectName = ImportTable[Class].ObjectName;
+	if (ObjectName < 0 || (size_t)ObjectName >= NameEntries.size())
+		return "";
+	return NameEntries[ObjectName].Name;
+}
+
+
 // Internal function used to load the UTX.
 ILboolean iLoadUtxInternal(void)
 {
@@ -341,6 +359,7 @@ ILboolean iLoadUtxInternal(void)
 	ILboolean	BaseCreated = IL_FALSE, HasPal;
 	ILint		Format;
 	ILubyte		*CompData = NULL;
+	ILuint		CompSize;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -349,8 +368,10 @@ ILboolean iLoadUtxInternal(void)
 
 	if (!GetUtxHead(Header))
 		return IL_FALSE;
-	if (!CheckUtxHead(Header))
+	if (!CheckUtxHead(Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	// We grab the name table.
 	if (!GetUtxNameTable(NameEntries, Header))
@@ -364,7 +385,7 @@ ILboolean iLoadUtxInternal(void)
 
 	// Find the number of palettes in the export table.
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette")
+		if (UtxClassName(ExportTable[i].Class, NameEntries, ImportTable) == "Palette")
 			NumPal++;
 	}
 	Palettes.resize(NumPal);
@@ -372,11 +393,16 @@ ILboolean iLoadUtxInternal(void)
 	// Read in all of the palettes.
 	NumPal = 0;
 	for (i = 0; i < Header.ExportCount; i++) {
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Palette") {
+		if (UtxClassName(ExportTable[i].Class, NameEntries, ImportTable) == "Palette") {
 			Palettes[NumPal].Name = i;
-			iseek(ExportTable[NumPal].SerialOffset, IL_SEEK_SET);
+			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
 			Name = igetc();  // Skip the 2.  @TODO: Can there be more in front of the palettes?
 			Palettes[NumPal].Count = UtxReadCompactInteger();
+			// Pixels are single bytes, so there cannot be more colours than this.
+			if (Palettes[NumPal].Count < 1 || Palettes[NumPal].Count > 256) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			Palettes[NumPal].Pal = new ILubyte[Palettes[NumPal].Count * 4];
 			if (iread(Palettes[NumPal].Pal, Palettes[NumPal].Count * 4, 1) != 1)
 				return IL_FALSE;
@@ -386,15 +412,20 @@ ILboolean iLoadUtxInternal(void)
 
 	for (i = 0; i < Header.ExportCount; i++) {
 		// Find textures in the file.
-		if (NameEntries[ImportTable[ExportTable[i].Class].ObjectName].Name == "Texture") {
+		if (UtxClassName(ExportTable[i].Class, NameEntries, ImportTable) == "Texture") {
 			iseek(ExportTable[i].SerialOffset, IL_SEEK_SET);
 			Width = -1;  Height = -1;  PalEntry = NumPal;  HasPal = IL_FALSE;  Format = -1;
 
 			do {
 				// Always starts with a comptact integer that gives us an entry into the name table.
 				Name = UtxReadCompactInteger();
+				if (Name < 0 || (ILuint)Name >= Header.NameCount) {  // Not an entry of the name table
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
+					return IL_FALSE;
+				}
 				if (NameEntries[Name].Name == "None")
 					break;
+				Val = 0;
 				Type = igetc();
 				Size = (Type & 0x70) >> 4;
 
@@ -478,11 +509,14 @@ ILboolean iLoadUtxInternal(void)
 			if (Format == -1)
 				Format = UTX_P8;
 			// Just checks for everything being proper.  If the format is P8, we check to make sure that a palette was found.
-			if (Width == -1 || Height == -1 || (PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1))
+			if (Width == -1 || Height == -1 || ((ILuint)PalEntry == NumPal && Format != UTX_DXT1) || (Format != UTX_P8 && Format != UTX_DXT1)) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
 				return IL_FALSE;
+			}
 			if (BaseCreated == IL_FALSE) {
 				BaseCreated = IL_TRUE;
-				ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL);
+				if (!ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL))
+					return IL_FALSE;
 				Image = iCurImage;
 			}
 			else {
@@ -512,25 +546,26 @@ ILboolean iLoadUtxInternal(void)
 					break;
 
 				case UTX_DXT1:
-					Image->DxtcSize = IL_MAX(Image->Width * Image->Height / 2, 8);
-					CompData = (ILubyte*)ialloc(Image->DxtcSize);
+					CompSize = ((Image->Width + 3) / 4) * ((Image->Height + 3) / 4) * 8;
+					CompData = (ILubyte*)ialloc(CompSize);
 					if (CompData == NULL)
 						return IL_FALSE;
 
-					if (iread(CompData, Image->DxtcSize, 1) != 1) {
+					if (iread(CompData, CompSize, 1) != 1) {
+						ifree(CompData);
+						return IL_FALSE;
+					}
+					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
 						ifree(CompData);
 						return IL_FALSE;
 					}
 					// Keep a copy of the DXTC data if the user wants it.
 					if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
 						Image->DxtcData = CompData;
+						Image->DxtcSize = CompSize;
 						Image->DxtcFormat = IL_DXT1;
 						CompData = NULL;
 					}
-					if (DecompressDXT1(Image, CompData) == IL_FALSE) {
-						ifree(CompData);
-						return IL_FALSE;
-					}
 					ifree(CompData);
 					break;
 			}
@@ -538,6 +573,11 @@ ILboolean iLoadUtxInternal(void)
 		}
 	}
 
+	if (BaseCreated == IL_FALSE) {  // There is no texture in here.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 }
 
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..4ba4fa3 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -318,7 +318,8 @@ ILint XpmGetInt(ILubyte *Buffer, ILint Size, ILint *Position)
 	for (i = *Position, j = 0; i < Size; i++) {
 		if (isdigit(Buffer[i])) {
 			IsInNum = IL_TRUE;
-			Buff[j++] = Buffer[i];
+			if (j < (ILint)sizeof(Buff) - 1)
+				Buff[j++] = Buffer[i];
 		}
 		else {
 			if (IsInNum) {
@@ -450,8 +451,10 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 	}
 	i++;  // Skip the quotes.
 
-	if (i >= Size)
+	if (i + Len > Size) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	// Get the characters.
 	for (j = 0; j < Len; ++j) {
@@ -482,8 +485,10 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 			break;
 	}
 
-	if (i >= Size)
+	if (i >= Size) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	if (Buffer[i] == '#') {
 		// colour string may 4 digits/color or 1 digit/color
@@ -509,6 +514,10 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 				ColBuff[0] = Buffer[i + j];
 				ColBuff[1] = 0;
 			}
+			else { // no digit left
+				ColBuff[0] = 0;
+				ColBuff[1] = 0;
+			}
 
 			ColBuff[2] = 0; // add terminating '\0' char
 			Colour[j] = (ILubyte)strtol((char*)ColBuff, NULL, 16);
@@ -519,16 +528,20 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 		for (j = 0; i < Size; i++) {
 			if (!isalnum(Buffer[i]))
 				break;
-			Buff[j++] = Buffer[i];
+			if (j < (ILint)sizeof(Buff) - 1)
+				Buff[j++] = Buffer[i];
 		}
 		Buff[j] = 0;
 
-		if (i >= Size)
+		if (i >= Size) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
+		}
 
-		if (!XpmPredefCol(Buff, &Colour))
-
+		if (!XpmPredefCol(Buff, &Colour)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
+		}
 	}
 
 
@@ -580,7 +593,12 @@ ILboolean iLoadXpmInternal()
 	}
 #endif
 
-	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL
+	if (Width < 1 || Height < 1 || NumColours < 1 || CharsPerPixel < 1) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
+	if (CharsPerPixel > XPM_MAX_CHAR_PER_PIXEL || Width > BUFFER_SIZE
 		|| Width*CharsPerPixel > BUFFER_SIZE) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
@@ -619,9 +637,19 @@ ILboolean iLoadXpmInternal()
 	}
 
 	Data = iCurImage->Data;
+	memset(Data, 0, iCurImage->SizeOfData);  // For pixels whose colour is not in the table
 
 	for (y = 0; y < Height; y++) {
 		Size = XpmGets(Buffer, BUFFER_SIZE);
+		if (Size < 1 + Width * CharsPerPixel) {  // The line is too short.
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+#ifndef XPM_DONT_USE_HASHTABLE
+			XpmDestroyHashTable(HashTable);
+#else
+			ifree(Colours);
+#endif
+			return IL_FALSE;
+		}
 		for (x = 0; x < Width; x++) {
 #ifndef XPM_DONT_USE_HASHTABLE
 			XpmGetEntry(HashTable, &Buffer[1 + x*CharsPerPixel], CharsPerPixel, &Data[(x << 2)]);
-- 
2.43.0


From 9dc8850861937ce17befa99049a2543a5d2c9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 086/121] fix: ICO, ICNS, ILBM, MDL, MP3, DICOM, HDR and JPEG
 loaders stop at the end of the data, check sizes and report failures [C17]

---
 DevIL/src-IL/include/il_hdr.h |   2 +-
 DevIL/src-IL/src/il_dicom.cpp |  17 ++++--
 DevIL/src-IL/src/il_hdr.cpp   |  37 +++++++++---
 DevIL/src-IL/src/il_icns.cpp  |  49 +++++++++++++---
 DevIL/src-IL/src/il_icon.cpp  | 107 ++++++++++++++++++++++------------
 DevIL/src-IL/src/il_ilbm.cpp  |  31 ++++++++--
 DevIL/src-IL/src/il_jpeg.cpp  |  16 ++---
 DevIL/src-IL/src/il_mdl.cpp   |  28 +++++----
 DevIL/src-IL/src/il_mp3.cpp   |   7 ++-
 9 files changed, 209 insertions(+), 85 deletions(-)

diff --git a/DevIL/src-IL/include/il_hdr.h b/DevIL/src-IL/include/il_hdr.h
index 2c30b0a..5f22cb0 100644
--- a/DevIL/src-IL/include/il_hdr.h
+++ b/DevIL/src-IL/include/il_hdr.h
@@ -38,6 +38,6 @@ ILboolean ilLoadHdrF(ILHANDLE file);
 ILboolean iLoadHdrInternal();
 ILboolean iSaveHdrInternal();
 
-void ReadScanline(ILubyte *scanline, ILuint w);
+ILboolean ReadScanline(ILubyte *scanline, ILuint w);
 
 #endif//HDR_H
diff --git a/DevIL/src-IL/src/il_dicom.cpp b/DevIL/src-IL/src/il_dicom.cpp
index c8074a6..7260256 100644
--- a/DevIL/src-IL/src/il_dicom.cpp
+++ b/DevIL/src-IL/src/il_dicom.cpp
@@ -128,6 +128,8 @@ ILboolean iGetDicomHead(DICOMHEAD *Header)
 	do {
 		GroupNum = GetGroupNum(Header);
 		ElementNum = GetShort(Header, GroupNum);;
+		if (GroupNum == 0xFFFF)  // Not a group: the file has ended.
+			return IL_FALSE;
 
 		switch (GroupNum)
 		{
@@ -272,6 +274,8 @@ ILboolean SkipElement(DICOMHEAD *Header, ILushort GroupNum, ILushort ElementNum)
 		ValLen = GetInt(Header, GroupNum);//GetLittleUInt();  // Length of the rest of the element
 		if (ValLen % 2)  // This length must be even, according to the specs.
 			return IL_FALSE;
+		if (ValLen > 0x7FFFFFFF)  // Would go backwards.
+			return IL_FALSE;
 		if (ElementNum != 0x00)  // Element numbers of 0 tell the size of the full group, so we do not skip this.
 								 //  @TODO: We could use this to skip groups that we do not care about.
 			if (iseek(ValLen, IL_SEEK_CUR))
@@ -296,7 +300,8 @@ ILuint GetGroupNum(DICOMHEAD *Header)
 {
 	ILushort GroupNum;
 
-	iread(&GroupNum, 1, 2);
+	if (iread(&GroupNum, 1, 2) != 2)
+		return 0xFFFF;
 	// The 0x02 group is always little endian.
 	if (GroupNum == 0x02) {
 		UShort(&GroupNum);
@@ -314,7 +319,7 @@ ILuint GetGroupNum(DICOMHEAD *Header)
 
 ILuint GetShort(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILushort Num;
+	ILushort Num = 0;
 
 	iread(&Num, 1, 2);
 	// The 0x02 group is always little endian.
@@ -334,7 +339,7 @@ ILuint GetShort(DICOMHEAD *Header, ILushort GroupNum)
 
 ILuint GetInt(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILuint Num;
+	ILuint Num = 0;
 
 	iread(&Num, 1, 4);
 	// The 0x02 group is always little endian.
@@ -354,7 +359,7 @@ ILuint GetInt(DICOMHEAD *Header, ILushort GroupNum)
 
 ILfloat GetFloat(DICOMHEAD *Header, ILushort GroupNum)
 {
-	ILfloat Num;
+	ILfloat Num = 0;
 
 	iread(&Num, 1, 4);
 	// The 0x02 group is always little endian.
@@ -521,8 +526,10 @@ ILboolean iLoadDicomInternal(void)
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	if (!iCheckDicom(&Header))
+	if (!iCheckDicom(&Header)) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	if (!ilTexImage(Header.Width, Header.Height, Header.Depth, ilGetBppFormat(Header.Format), Header.Format, Header.Type, NULL))
 		return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..2ddef6e 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -225,9 +225,15 @@ ILboolean iLoadHdrInternal()
 		iPreCache(iCurImage->Width / 8 * iCurImage->Height);
 
 	data = (ILfloat*)iCurImage->Data;
-	scanline = (ILubyte*)ialloc(Header.Width*4);
+	scanline = (ILubyte*)icalloc(Header.Width, 4);
+	if (scanline == NULL)
+		return IL_FALSE;
 	for (i = 0; i < Header.Height; ++i) {
-		ReadScanline(scanline, Header.Width);
+		if (!ReadScanline(scanline, Header.Width)) {
+			iUnCache();
+			ifree(scanline);
+			return IL_FALSE;
+		}
 
 		//convert hdrs internal format to floats
 		for (j = 0; j < 4*Header.Width; j += 4) {
@@ -260,14 +266,18 @@ ILboolean iLoadHdrInternal()
 	return ilFixImage();
 }
 
-void ReadScanline(ILubyte *scanline, ILuint w) {
+// Returns IL_FALSE if the file ends too early.
+ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
 	ILubyte *runner;
 	ILuint r, g, b, e, read, shift;
+	ILint c;
 
 	r = igetc();
 	g = igetc();
 	b = igetc();
 	e = igetc();
+	if (e == (ILuint)IL_EOF)
+		return IL_FALSE;
 
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
@@ -281,9 +291,14 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			runner = scanline + k;
 			j = 0;
 			while (j < length) {
-				t = igetc();
+				if ((c = igetc()) == IL_EOF)
+					return IL_FALSE;
+				t = c;
 				if (t > 128) { //Run?
-					ILubyte val = igetc();
+					ILubyte val;
+					if ((c = igetc()) == IL_EOF)
+						return IL_FALSE;
+					val = c;
 					t &= 127;
 					//copy current byte
 					while (t > 0 && j < length) {
@@ -296,7 +311,9 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				else { //No Run.
 					//read new bytes
 					while (t > 0 && j < length) {
-						*runner = igetc();
+						if ((c = igetc()) == IL_EOF)
+							return IL_FALSE;
+						*runner = c;
 						runner += 4;
 						--t;
 						++j;
@@ -304,7 +321,7 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 			}
 		}
-		return; //done decoding a scanline in separated format
+		return IL_TRUE; //done decoding a scanline in separated format
 	}
 
 	//if we come here, we are dealing with old-style scanlines
@@ -317,11 +334,13 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			g = igetc();
 			b = igetc();
 			e = igetc();
+			if (e == (ILuint)IL_EOF)
+				return IL_FALSE;
 		}
 
 		//if all three mantissas are 1, then this is a rle
 		//count dword
-		if (r == 1 && g == 1 && b == 1) {
+		if (r == 1 && g == 1 && b == 1 && read > 0 && shift < 32) {
 			ILuint length = e;
 			ILuint j;
 			for (j = length << shift; j > 0 && read < w; --j) {
@@ -346,6 +365,8 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			++read;
 		}
 	}
+
+	return IL_TRUE;
 }
 
 
diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..5e0895b 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -153,16 +153,24 @@ ILboolean iLoadIcnsInternal()
 		return IL_FALSE;
 	}
 
-	iread(Header.Head, 4, 1);
+	if (iread(Header.Head, 4, 1) != 1)
+		return IL_FALSE;
 	Header.Size = GetBigInt();
 
-	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
+	if (strncmp(Header.Head, "icns", 4)) {  // First 4 bytes have to be 'icns'.
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
 	while ((ILint)itell() < Header.Size && !ieof())
 	{
-		iread(Entry.ID, 4, 1);
+		if (iread(Entry.ID, 4, 1) != 1)
+			return IL_FALSE;
 		Entry.Size = GetBigInt();
+		if (Entry.Size < 8) {  // Counts itself
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		if (!strncmp(Entry.ID, "it32", 4))  // 128x128 24-bit
 		{
@@ -222,6 +230,11 @@ ILboolean iLoadIcnsInternal()
 		}
 	}
 
+	if (!BaseCreated) {  // Nothing that we can use
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
 	return ilFixImage();
 
 icns_error:
@@ -260,7 +273,11 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	{
 		if (!*BaseCreated)  // Create base image
 		{
-			ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			*Image = iCurImage;
 			*BaseCreated = IL_TRUE;
@@ -268,6 +285,11 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 		else  // Create next image in list
 		{
 			(*Image)->Next = ilNewImage(Width, Width, 1, 4, 1);
+			if ((*Image)->Next == NULL)
+			{
+				ifree(Data);
+				return IL_FALSE;
+			}
 			*Image = (*Image)->Next;
 			(*Image)->Format = IL_RGBA;
 			(*Image)->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -278,10 +300,10 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 
 	if (IsAlpha)  // Alpha is never compressed.
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
-		if (Entry->Size - 8 != Width * Width)
+		if (Entry->Size - 8 != Width * Width || iread(Data, Entry->Size - 8, 1) != 1)  // Size includes the header
 		{
 			ifree(Data);
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
 
@@ -307,7 +329,12 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	}
 	else  // RGB data
 	{
-		iread(Data, Entry->Size - 8, 1);  // Size includes the header
+		if (Entry->Size == 8 || iread(Data, Entry->Size - 8, 1) != 1)  // Size includes the header
+		{
+			ifree(Data);
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		if (Width == 128)
 			RLEPos += 4;  // There are an extra 4 bytes here of zeros.
 		//@TODO: Should we check to make sure they are all 0?
@@ -329,6 +356,14 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 				Position = 0;
 				while (Position < Width * Width)
 				{
+					// What is read next: the data has to have a byte after this one, or as many as it announces.
+					if (RLEPos + 1 >= Entry->Size - 8 ||
+						(Data[RLEPos] < 128 && RLEPos + 1 + Data[RLEPos] >= Entry->Size - 8))
+					{
+						ifree(Data);
+						ilSetError(IL_ILLEGAL_FILE_VALUE);
+						return IL_FALSE;
+					}
 					RLERead = Data[RLEPos];
 					RLEPos++;
 
diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..56657c3 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -60,6 +60,13 @@ ILboolean ilLoadIconL(const void *Lump, ILuint Size)
 }
 
 
+// Numbers of bits per pixel that are handled
+static ILboolean iIconBits(ILshort BitCount)
+{
+	return (BitCount == 1 || BitCount == 4 || BitCount == 8 || BitCount == 24 || BitCount == 32) ? IL_TRUE : IL_FALSE;
+}
+
+
 // Internal function used to load the icon.
 ILboolean iLoadIconInternal()
 {
@@ -67,7 +74,7 @@ ILboolean iLoadIconInternal()
 	ICODIRENTRY	*DirEntries = NULL;
 	ICOIMAGE	*IconImages = NULL;
 	ILimage		*Image = NULL;
-	ILint		i;
+	ILint		i, NumColours;
 	ILuint		Size, PadSize, ANDPadSize, j, k, l, m, x, w, CurAndByte, AndBytes;
 	ILboolean	BaseCreated = IL_FALSE;
 	ILubyte		PNGTest[3];
@@ -81,7 +88,7 @@ ILboolean iLoadIconInternal()
 	IconDir.Type = GetLittleShort();
 	IconDir.Count = GetLittleShort();
 
-	if (ieof())
+	if (ieof() || IconDir.Count <= 0)
 		goto file_read_error;
 
 	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
@@ -115,7 +122,8 @@ ILboolean iLoadIconInternal()
 
 		// 08-22-2008: Adding test for compressed PNG data
 		igetc(); // Skip the first character...seems to vary.
-		iread(PNGTest, 3, 1);
+		if (iread(PNGTest, 3, 1) != 1)
+			goto file_read_error;
 		if (!strnicmp((char*)PNGTest, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
 		{
 #ifdef IL_NO_PNG
@@ -147,19 +155,20 @@ ILboolean iLoadIconInternal()
 			if (ieof())
 				goto file_read_error;
 
+			if (IconImages[i].Head.Size == 0)  // Marks PNG icons below.
+				goto file_read_error;
+			if (IconImages[i].Head.Width <= 0 || IconImages[i].Head.Height < 2 || IconImages[i].Head.Width > 0x7FFF || IconImages[i].Head.Height > 0x7FFF)
+				goto file_read_error;
+			if (!iIconBits(IconImages[i].Head.BitCount))  // Not shown below
+				continue;
+
 			if (IconImages[i].Head.BitCount < 8) {
-				if (IconImages[i].Head.ColourUsed == 0) {
-					switch (IconImages[i].Head.BitCount)
-					{
-						case 1:
-							IconImages[i].Head.ColourUsed = 2;
-							break;
-						case 4:
-							IconImages[i].Head.ColourUsed = 16;
-							break;
-					}
-				}
-				IconImages[i].Pal = (ILubyte*)ialloc(IconImages[i].Head.ColourUsed * 4);
+				NumColours = 1 << IconImages[i].Head.BitCount;
+				if (IconImages[i].Head.ColourUsed == 0)
+					IconImages[i].Head.ColourUsed = NumColours;
+				if (IconImages[i].Head.ColourUsed < 0 || IconImages[i].Head.ColourUsed > NumColours)
+					goto file_read_error;
+				IconImages[i].Pal = (ILubyte*)icalloc(NumColours, 4);  // One for each index
 				if (IconImages[i].Pal == NULL)
 					goto file_read_error;  // @TODO: Rename the label.
 				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
@@ -199,26 +208,23 @@ ILboolean iLoadIconInternal()
 
 
 	for (i = 0; i < IconDir.Count; i++) {
-		if (IconImages[i].Head.BitCount != 1 && IconImages[i].Head.BitCount != 4 &&
-			IconImages[i].Head.BitCount != 8 && IconImages[i].Head.BitCount != 24 &&
-
-			IconImages[i].Head.BitCount != 32)
+		if (!iIconBits(IconImages[i].Head.BitCount))
 			continue;
 
+		if (IconImages[i].Head.Size != 0)  // Not a PNG compressed icon: the AND mask is counted, too.
+			IconImages[i].Head.Height /= 2;
+
 		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+				goto file_read_error;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			Image = iCurImage;
 			BaseCreated = IL_TRUE;
 		}
 		else {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
-			else
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
+			Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
+			if (Image->Next == NULL)
+				goto file_read_error;
 			Image = Image->Next;
 			Image->Format = IL_BGRA;
 		}
@@ -232,6 +238,9 @@ ILboolean iLoadIconInternal()
 		ANDPadSize = (4 - ((w + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
 		AndBytes = (w + 7) / 8;
 
+		if (IconImages[i].Head.Size == 0)  // The rows of PNG compressed icons are not padded.
+			PadSize = 0;
+
 		if (IconImages[i].Head.BitCount == 1) {
 			for (; j < Image->SizeOfData; k++) {
 				for (m = 128; m && x < w; m >>= 1) {
@@ -327,7 +336,10 @@ ILboolean iLoadIconInternal()
 				Image->Data[j] = IconImages[i].Data[k];
 				Image->Data[j+1] = IconImages[i].Data[k+1];
 				Image->Data[j+2] = IconImages[i].Data[k+2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
+				if (IconImages[i].AND == NULL)  // PNG
+					Image->Data[j+3] = 255;
+				else
+					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
 				l >>= 1;
 
 				++x;
@@ -358,6 +370,11 @@ ILboolean iLoadIconInternal()
 	}
 
 
+	if (!BaseCreated) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto file_read_error;
+	}
+
 	for (i = 0; i < IconDir.Count; i++) {
 		ifree(IconImages[i].Pal);
 		ifree(IconImages[i].Data);
@@ -382,6 +399,7 @@ file_read_error:
 	}
 	if (DirEntries)
 		ifree(DirEntries);
+	ilSetError(IL_ILLEGAL_FILE_VALUE);
 	return IL_FALSE;
 }
 
@@ -424,8 +442,8 @@ ILboolean iLoadIconPNG(ICOIMAGE *Icon)
 #ifndef IL_NO_PNG
 static void ico_png_read(png_structp png_ptr, png_bytep data, png_size_t length)
 {
-	(void)png_ptr;
-	iread(data, 1, (ILuint)length);
+	if (iread(data, 1, (ILuint)length) != (ILuint)length)
+		png_error(png_ptr, "Unexpected end of file");
 	return;
 }
 
@@ -499,7 +517,7 @@ ILint ico_readpng_init()
 
 ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 {
-	png_bytepp	row_pointers = NULL;
+	png_bytepp volatile row_pointers = NULL;
 	png_uint_32 width, height; // Changed the type to fix AMD64 bit problems, thanks to Eric Werness
 	ILdouble	screen_gamma = 1.0;
 	ILuint		i, channels;
@@ -516,6 +534,7 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	 * libpng function */
 
 	if (setjmp(png_jmpbuf(ico_png_ptr))) {
+		ifree(row_pointers);
 		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
 		return IL_FALSE;
 	}
@@ -543,6 +562,11 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 		png_set_packing(ico_png_ptr);
 	}
 
+	if (bit_depth == 16) {  // The icon has 8 bits per channel.
+		bit_depth = 8;
+		png_set_strip_16(ico_png_ptr);
+	}
+
 	// Perform gamma correction.
 	// @TODO:  Determine if we should call png_set_gamma if image_gamma is 1.0.
 #if _WIN32 || DJGPP
@@ -590,6 +614,11 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 	if (ico_color_type & PNG_COLOR_MASK_COLOR)
 		png_set_bgr(ico_png_ptr);
 
+	if (width > 0x7FFF || height > 0x7FFF) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+		return IL_FALSE;
+	}
 	Icon->Head.Width = width;
 	Icon->Head.Height = height;
 	Icon->Data = (ILubyte*)ialloc(width * height * Icon->Head.BitCount / 8);
@@ -618,18 +647,20 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 		}
 
 // @TODO: We may need to keep track of the size of the palette.
-		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
+		Icon->Pal = (ILubyte*)icalloc(256, chans);  // One for each index
+		if (Icon->Pal == NULL) {
+			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			Icon->Pal[chans*j + 0] = palette[j].blue;
 			Icon->Pal[chans*j + 1] = palette[j].green;
 			Icon->Pal[chans*j + 2] = palette[j].red;
-			if (trans != NULL) {
-				if (j < num_trans)
-					Icon->Pal[chans*j + 3] = trans[j];
-				else
-					Icon->Pal[chans*j + 3] = 255;
-			}
+			if (trans != NULL && j < num_trans)
+				Icon->Pal[chans*j + 3] = trans[j];
+			else
+				Icon->Pal[chans*j + 3] = 255;
 		}
 
 		Icon->AND = NULL;  // Transparency information is obtained from libpng.
diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index cdbf73f..2662ae7 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -258,6 +258,7 @@ static ILboolean load_ilbm(void)
 
     error   = NULL;
     MiniBuf = NULL;
+    memset( colormap, 0, sizeof( colormap ) );
 
     start = SDL_RWtell(src);
     if ( !SDL_RWread( src, id, 4, 1 ) )
@@ -344,6 +345,12 @@ static ILboolean load_ilbm(void)
 
         if ( !memcmp( id, "CMAP", 4 ) ) /* palette ( Color Map ) */
         {
+            if ( size > sizeof( colormap ) )
+            {
+                ilSetError(IL_ILLEGAL_FILE_VALUE);
+                error=(char*)"too many colors in CMAP chunk";
+                goto done;
+            }
             if ( !SDL_RWread( src, &colormap, size, 1 ) )
             {
                 error=(char*)"error reading CMAP chunk";
@@ -363,7 +370,7 @@ static ILboolean load_ilbm(void)
                 goto done;
             }
 
-            bytesloaded = size;
+            bytesloaded = sizeof(viewmodes);
             viewmodes = SDL_SwapBE32( viewmodes );
             if ( viewmodes & 0x0800 )
                 flagHAM = 1;
@@ -374,6 +381,12 @@ static ILboolean load_ilbm(void)
         if ( memcmp( id, "BODY", 4 ) )
         {
             if ( size & 1 ) ++size;     /* padding ! */
+            if ( size < bytesloaded || size - bytesloaded > 0x7FFFFFFF )
+            {
+                ilSetError(IL_ILLEGAL_FILE_VALUE);
+                error=(char*)"wrong IFF chunk size";
+                goto done;
+            }
             size -= bytesloaded;
             /* skip the remaining bytes of this chunk */
             if ( size ) SDL_RWseek( src, size, SEEK_CUR );
@@ -388,6 +401,13 @@ static ILboolean load_ilbm(void)
 
     nbplanes = bmhd.planes;
 
+    if ( bmhd.w == 0 || bmhd.h == 0 || ( nbplanes > 8 && nbplanes != 24 ) || ( flagHAM && ( nbplanes < 3 || nbplanes > 8 ) ) )
+    {
+        ilSetError(IL_ILLEGAL_FILE_VALUE);
+        error=(char*)"wrong IFF bitmap header";
+        goto done;
+    }
+
     if ( pbm )                         /* File format : 'Packed Bitmap' */
     {
         bytesperline *= 8;
@@ -413,7 +433,10 @@ static ILboolean load_ilbm(void)
         format = IL_COLOUR_INDEX;
     }
     if( !ilTexImage( width, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    {
+        error=(char*)"no image";
         goto done;
+    }
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 #if 0 /*  No transparent colour support in DevIL? (TODO: confirm) */
@@ -424,7 +447,7 @@ static ILboolean load_ilbm(void)
     /* Update palette informations */
 
     /* There is no palette in 24 bits ILBM file */
-    if ( nbcolors>0 && flagHAM==0 )
+    if ( nbcolors>0 && format==IL_COLOUR_INDEX )
     {
         int nbrcolorsfinal = 1 << nbplanes;
         ptr = &colormap[0];
@@ -537,7 +560,7 @@ static ILboolean load_ilbm(void)
         /* One line has been read, store it ! */
 
         ptr = ilGetData();
-        if ( nbplanes==24 || flagHAM==1 )
+        if ( format==IL_BGR )
             ptr += h * width * 3;
         else
             ptr += h * width;
@@ -548,7 +571,7 @@ static ILboolean load_ilbm(void)
         }
         else        /* We have to un-interlace the bits ! */
         {
-            if ( nbplanes!=24 && flagHAM==0 )
+            if ( format!=IL_BGR )
             {
                 size = ( width + 7 ) / 8;
 
diff --git a/DevIL/src-IL/src/il_jpeg.cpp b/DevIL/src-IL/src/il_jpeg.cpp
index 4cc1648..2bef448 100644
--- a/DevIL/src-IL/src/il_jpeg.cpp
+++ b/DevIL/src-IL/src/il_jpeg.cpp
@@ -236,18 +236,16 @@ fill_input_buffer (j_decompress_ptr cinfo)
 	nbytes = iread(src->buffer, 1, INPUT_BUF_SIZE);
 
 	if (nbytes <= 0) {
-		if (src->start_of_file) {  // Treat empty input file as fatal error
-			//ERREXIT(cinfo, JERR_INPUT_EMPTY);
-			jpgErrorOccured = IL_TRUE;
-		}
-		//WARNMS(cinfo, JWRN_JPEG_EOF);
+		if (src->start_of_file)  // Treat empty input file as fatal error
+			(*cinfo->err->error_exit)((j_common_ptr)cinfo);
+		// The file is cut short: what is there can be shown, but it is reported.
+		jpgErrorOccured = IL_TRUE;
 		// Insert a fake EOI marker
 		src->buffer[0] = (JOCTET) 0xFF;
 		src->buffer[1] = (JOCTET) JPEG_EOI;
 		nbytes = 2;
-		return (boolean)IL_FALSE;
 	}
-	if (nbytes < INPUT_BUF_SIZE) {
+	else if (nbytes < INPUT_BUF_SIZE) {
 		ilGetError();  // Gets rid of the IL_FILE_READ_ERROR.
 	}
 
@@ -902,8 +900,10 @@ ILboolean ilLoadFromJpegStruct(void *_JpegInfo)
 
 	// sam. JpegInfo->err->error_exit = errorHandler;
 
-	if (jpgErrorOccured)
+	if (jpgErrorOccured) {
+		ilSetError(IL_FILE_READ_ERROR);
 		return IL_FALSE;
+	}
 
 	return ilFixImage();
 #endif
diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..f91b415 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -162,7 +162,7 @@ ILboolean iLoadMdlInternal()
 
 	for (ImageNum = 0; ImageNum < NumTex; ImageNum++) {
 		if (iread(TexHead.Name, 1, 64) != 64)
-			return IL_FALSE;
+			goto error;
 		TexHead.Flags = GetLittleUInt();
 		TexHead.Width = GetLittleUInt();
 		TexHead.Height = GetLittleUInt();
@@ -171,37 +171,38 @@ ILboolean iLoadMdlInternal()
 
 		if (TexHead.Offset == 0) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
+			goto error;
 		}
 
 		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			BaseCreated = IL_TRUE;
 			BaseImage = iCurImage;
 			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			if (iCurImage->Next == NULL)
+				goto error;
 			iCurImage = iCurImage->Next;
 			iCurImage->Format = IL_COLOUR_INDEX;
 			iCurImage->Type = IL_UNSIGNED_BYTE;
 		}
 
 		TempPal	= (ILubyte*)ialloc(768);
-		if (TempPal == NULL) {
-			iCurImage = BaseImage;
-			return IL_FALSE;
-		}
+		if (TempPal == NULL)
+			goto error;
 		iCurImage->Pal.Palette = TempPal;
 		iCurImage->Pal.PalSize = 768;
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
 
 		iseek(TexHead.Offset, IL_SEEK_SET);
-		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
-			return IL_FALSE;
+		if (iread(iCurImage->Data, iCurImage->SizeOfData, 1) != 1)
+			goto error;
 		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
-			return IL_FALSE;
+			goto error;
 
 		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
 			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
@@ -213,6 +214,11 @@ ILboolean iLoadMdlInternal()
 	iCurImage = BaseImage;
 
 	return ilFixImage();
+
+error:
+	if (BaseImage != NULL)
+		iCurImage = BaseImage;
+	return IL_FALSE;
 }
 
 #endif//IL_NO_MDL
diff --git a/DevIL/src-IL/src/il_mp3.cpp b/DevIL/src-IL/src/il_mp3.cpp
index c7f0458..d8beac0 100755
--- a/DevIL/src-IL/src/il_mp3.cpp
+++ b/DevIL/src-IL/src/il_mp3.cpp
@@ -165,7 +165,7 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 					break;
 			}
 			// The MimeType must be terminated by 0 in the file by the specs.
-			if (MimeType[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			if (!strcmp((char*)MimeType, "image/jpeg"))
 				Type = MP3_JPG;
@@ -182,12 +182,13 @@ ILuint iFindMp3Pic(MP3HEAD *Header)
 				if (Description[i] == 0)
 					break;
 			}
-			if (Description[i] != 0)
+			if (i == 65)
 				return MP3_NONE;
 			return Type;
 		}
 		else {
-			iseek(FrameSize, IL_SEEK_CUR);
+			if (FrameSize > 0x0FFFFFFF || iseek(FrameSize, IL_SEEK_CUR) != 0)
+				return MP3_NONE;
 		}
 
 		//if (!strncmp(MimeType, "
-- 
2.43.0


From c703a031ce354c1bb4299e63657a797c2cd36bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 087/121] fix: MNG loader reports libmng's failures, releases
 its handle and starts from a blank image [C17]

---
 DevIL/src-IL/src/il_mng.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 8241c23..8365f65 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -132,16 +132,18 @@ mng_bool MNG_DECL mymngprocessheader(mng_handle mng, mng_uint32 width, mng_uint3
 	AlphaDepth = mng_get_alphadepth(mng);
 
 	if (AlphaDepth == 0) {
-		ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL);
-		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+		if (!ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGR8);
 	}
 	else {  // Use alpha channel
-		ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+		if (!ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGRA8);
 	}
 
+	// Not every pixel has to be covered by a frame.
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return MNG_TRUE;
@@ -247,7 +249,8 @@ ILboolean ilLoadMngL(const void *Lump, ILuint Size)
 
 ILboolean iLoadMngInternal()
 {
-	mng_handle mng;
+	mng_handle	mng;
+	mng_retcode	Ret;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -274,8 +277,16 @@ ILboolean iLoadMngInternal()
 	mng_setcb_getcanvasline(mng, mymnggetcanvasline);
 	mng_setcb_refresh(mng, mymngrefresh);
 
-	mng_read(mng);
-	mng_display(mng);
+	Ret = mng_read(mng);
+	if (Ret == MNG_NOERROR)
+		Ret = mng_display(mng);
+	mng_cleanup(&mng);
+
+	// An animation waits after its first frame, which is the one used.
+	if (Ret != MNG_NOERROR && Ret != MNG_NEEDTIMERWAIT) {
+		ilSetError(IL_LIB_MNG_ERROR);
+		return IL_FALSE;
+	}
 
 	return ilFixImage();
 }
-- 
2.43.0


From 2343a704adf01eb509ad346e59c5d64e3eb2cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 088/121] fix: PIC loader keeps rows and runs inside the image
 [C17]

---
 DevIL/src-IL/src/il_pic.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index ea0ad58..3944666 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -201,6 +201,7 @@ ILboolean iLoadPicInternal()
 		Channels->Type = igetc();
 		Channels->Chan = igetc();
 		if (ieof()) {
+			ilSetError(IL_FILE_READ_ERROR);
 			Read = IL_FALSE;
 			goto finish;
 		}
@@ -218,7 +219,7 @@ ILboolean iLoadPicInternal()
 		}
 	}
 	else {  // No alpha channel
-		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 			Read = IL_FALSE;
 			goto finish;  // Have to destroy Channels first.
 		}
@@ -244,15 +245,13 @@ finish:
 
 ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
 {
-	ILint	i;
-	ILuint	*scan;
+	ILint	i, bytes = alpha ? 4 : 3;
+	ILubyte	*scan;
 
-	(void)alpha;
-	
 	for (i = height - 1; i >= 0; i--) {
-		scan = image + i * width;
+		scan = (ILubyte*)image + i * width * bytes;
 
-		if (!readScanline((ILubyte *)scan, width, channel, alpha ? 4 : 3)) {
+		if (!readScanline(scan, width, channel, bytes)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
@@ -337,8 +336,8 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		count = igetc();
 		if (count == IL_EOF)
 			return IL_FALSE;
-		if (count > width)
-			count = width;
+		if (count > i)
+			count = i;
 		i -= count;
 		
 		if (ieof())
@@ -350,7 +349,7 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		
 		for (k = 0; k < count; k++, scan += bytes) {
 			for(j = 0; j < noCol; j++)
-				scan[off[j] + k] = col[j];
+				scan[off[j]] = col[j];
 		}
 	}
 	return IL_TRUE;
-- 
2.43.0


From 70e267ee34ae105d9e18e07e7f95bb04499e0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:09 +0000
Subject: [PATCH 089/121] fix: TGA, PIX and BLP loaders report truncated data,
 handle palettes and grey images; sizes with a zero dimension are checked
 [C17]

---
 DevIL/src-IL/src/il_blp.cpp   | 16 ++++++++++++++--
 DevIL/src-IL/src/il_devil.cpp |  2 +-
 DevIL/src-IL/src/il_pix.cpp   |  2 +-
 DevIL/src-IL/src/il_targa.cpp | 32 ++++++++++++++++++++------------
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..0ce1155 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -592,18 +592,29 @@ ILboolean iLoadBlp1()
 			//for (i = 0; i < 16; i++) {  // Possible maximum of 16 mipmaps
 				//@TODO: Check return value?
 				iseek(Header.MipOffsets[i], IL_SEEK_SET);
+				if (Header.MipLengths[i] > 0xFFFFFFFF - JpegHeaderSize) {
+					ifree(JpegHeader);
+					ilSetError(IL_INVALID_FILE_HEADER);
+					return IL_FALSE;
+				}
 				JpegData = (ILubyte*)ialloc(JpegHeaderSize + Header.MipLengths[i]);
 				if (JpegData == NULL) {
 					ifree(JpegHeader);
 					return IL_FALSE;
 				}
 				memcpy(JpegData, JpegHeader, JpegHeaderSize);
-				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
+				if (iread(JpegData + JpegHeaderSize, 1, Header.MipLengths[i]) != Header.MipLengths[i]) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// Just send the data straight to the Jpeg loader.
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
+				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// The image data is in BGR(A) order, even though it is Jpeg-compressed.
 				if (Image->Format == IL_RGBA)
@@ -688,6 +699,7 @@ ILboolean iLoadBlp1()
 
 					// Read in the data and the palette.
 					if (iread(Palette, 1, 1024) != 1024) {
+						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
 					}
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 01e15f4..0dbeebd 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -20,7 +20,7 @@
 static ILboolean iSizeTooLarge(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
 {
 	const unsigned long long Max = 0xFFFFFFFFull;
-	unsigned long long Size = (unsigned long long)Width * Bpp * Bpc;
+	unsigned long long Size = (unsigned long long)(Width != 0 ? Width : 1) * Bpp * Bpc;
 
 	if (Size > Max)
 		return IL_TRUE;
diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index e43e60f..eed40f9 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -143,7 +143,7 @@ ILboolean iLoadPixInternal()
 		ByteHead = igetc();
 		if (iread(Colour, 1, 3) != 3)
 			return IL_FALSE;
-		for (j = 0; j < ByteHead; j++) {
+		for (j = 0; j < ByteHead && i < iCurImage->SizeOfData; j++) {
 			iCurImage->Data[i++] = Colour[0];
 			iCurImage->Data[i++] = Colour[1];
 			iCurImage->Data[i++] = Colour[2];
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 943b167..80268b0 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -219,6 +219,9 @@ ILboolean iLoadTargaInternal()
 			return IL_FALSE;
 	}
 	
+	if (!bTarga)
+		return IL_FALSE;
+
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
 	iOrigin = Header.ImageDesc & IMAGEDESC_ORIGIN_MASK;
@@ -257,13 +260,14 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Header->Bpp != 8 || Header->ColMapLen == 0) {  // Indices are single bytes.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!ilTexImage(Header->Width, Header->Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
-		ifree(iCurImage->Pal.Palette);
 	
-	iCurImage->Format = IL_COLOUR_INDEX;
 	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
 	
 	switch (Header->ColMapEntSize)
@@ -300,13 +304,13 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 		// 16 bit palette, so we have to break it up.
 		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
 		{
-			Pixel = GetBigUShort();
-			if (ieof())
+			if (iread(&Pixel, 1, 2) != 2)
 				return IL_FALSE;
-			iCurImage->Pal.Palette[3] = (Pixel & 0x8000) >> 12;
-			iCurImage->Pal.Palette[0] = (Pixel & 0xFC00) >> 7;
-			iCurImage->Pal.Palette[1] = (Pixel & 0x03E0) >> 2;
-			iCurImage->Pal.Palette[2] = (Pixel & 0x001F) << 3;
+			UShort(&Pixel);
+			iCurImage->Pal.Palette[i + 3] = (Pixel & 0x8000) ? 0xFF : 0;
+			iCurImage->Pal.Palette[i + 2] = (Pixel & 0x7C00) >> 7;
+			iCurImage->Pal.Palette[i + 1] = (Pixel & 0x03E0) >> 2;
+			iCurImage->Pal.Palette[i] = (Pixel & 0x001F) << 3;
 		}
 	}
 	
@@ -351,7 +355,7 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 	switch (iCurImage->Bpp)
 	{
 		case 1:
-			iCurImage->Format = IL_COLOUR_INDEX;  // wtf?  How is this possible?
+			iCurImage->Format = IL_LUMINANCE;  // There is no palette.
 			break;
 		case 2:  // 16-bit is not supported directly!
 				 //iCurImage->Format = IL_RGB5_A1;
@@ -419,7 +423,11 @@ ILboolean iReadBwTga(TARGAHEAD *Header)
 	if (Header->ColMapPresent)  // The pixels do not use it.
 		iseek((ILushort)Header->ColMapLen * ((Header->ColMapEntSize + 7) >> 3), IL_SEEK_CUR);
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
+	if (Header->Bpp != 8 && Header->Bpp != 16) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), Header->Bpp == 8 ? IL_LUMINANCE : IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From 4b75e34ff4f81b051f735136c06b1cfa6017f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 090/121] fix: PXR, PSD and XPM loaders report truncated data
 and normalise what they load [C17]

---
 DevIL/src-IL/src/il_psd.cpp |  8 ++++++--
 DevIL/src-IL/src/il_pxr.cpp | 19 +++++++++++++------
 DevIL/src-IL/src/il_xpm.cpp |  2 +-
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 872084a..80d50b0 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -901,16 +901,20 @@ ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 			HeadByte = igetc();
 
 			if (HeadByte >= 0) {  //  && HeadByte <= 127
-				if (i + HeadByte + 1 > Head->Width * Head->Height)
+				if (i + HeadByte + 1 > Head->Width * Head->Height) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
+				}
 				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
 					return IL_FALSE;
 				i += HeadByte + 1;
 			}
 			if (HeadByte >= -127 && HeadByte <= -1) {
 				Run = igetc();
-				if (Run == IL_EOF || i - HeadByte + 1 > Head->Width * Head->Height)
+				if (Run == IL_EOF || i - HeadByte + 1 > Head->Width * Head->Height) {
+					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
+				}
 				memset(Buffer + i, Run, -HeadByte + 1);
 				i += -HeadByte + 1;
 			}
diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..c95ab66 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -84,7 +84,10 @@ ILboolean iLoadPxrInternal()
 	ILushort	Width, Height;
 	ILubyte		Bpp;
 
-	Width = sizeof(PIXHEAD);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
 	iseek(416, IL_SEEK_SET);
 	Height = GetLittleUShort();
@@ -95,13 +98,16 @@ ILboolean iLoadPxrInternal()
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
@@ -109,10 +115,11 @@ ILboolean iLoadPxrInternal()
 	}
 
 	iseek(1024, IL_SEEK_SET);
-	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4ba4fa3..0e35230 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -674,7 +674,7 @@ ILboolean iLoadXpmInternal()
 #else
 	ifree(Colours);
 #endif
-	return IL_TRUE;
+	return ilFixImage();
 
 #undef BUFFER_SIZE
 }
-- 
2.43.0


From dae9045a2686dc8d3f4922d4a9102ff4de703fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 091/121] fix: VTF files with flipped pictures and compressed
 ones hold the picture [C14]

---
 DevIL/src-IL/src/il_vtf.cpp | 52 ++++++++++++-------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 78718c9..3bd0db7 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -847,12 +847,15 @@ ILuint ilSaveVtfL(void *Lump, ILuint Size)
 
 
 // Internal function used to save the Vtf.
+ILuint Compress(ILimage *Image, ILenum DXTCFormat);
+
 ILboolean iSaveVtfInternal()
 {
 	ILimage	*TempImage = iCurImage;
-	ILubyte	*TempData, *CompData;
-	ILuint	Format, i, CompSize;
+	ILubyte	*TempData, *OrigData;
+	ILuint	Format, i;
 	ILenum	Compression;
+	ILboolean	Ret;
 
 	// Find out if the user has specified to use DXT compression.
 	Compression = ilGetInteger(IL_VTF_COMP);
@@ -895,7 +898,7 @@ ILboolean iSaveVtfInternal()
 			Format = IMAGE_FORMAT_RGBA16161616;
 		}
 		else if (TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
-			TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
 		}
@@ -921,7 +924,8 @@ ILboolean iSaveVtfInternal()
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
@@ -971,42 +975,20 @@ ILboolean iSaveVtfInternal()
 		iputc(0);
 	}
 
+	Ret = IL_TRUE;
 	if (Compression == IL_DXT_NO_COMP) {
 		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
-			return IL_FALSE;
+		if (iwrite(TempData, TempImage->SizeOfData, 1) != 1)
+			Ret = IL_FALSE;
 	}
 	else {  // Do DXT compression here and write.
-		// We have to find out how much we are writing first.
-		CompSize = ilGetDXTCData(NULL, 0, Compression);
-		if (CompSize == 0) {
-			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		CompData = (ILubyte*)ialloc(CompSize);
-		if (CompData == NULL) {
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-
-		// DXT compress the data.
-		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
-		if (CompSize == 0) {
+		OrigData = TempImage->Data;
+		TempImage->Data = TempData;
+		if (Compress(TempImage, Compression) == 0) {
 			ilSetError(IL_INTERNAL_ERROR);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
-		}
-		// Finally write the data.
-		if (iwrite(CompData, CompSize, 1) != 1) {
-			ifree(CompData);
-			if (TempData != TempImage->Data)
-				ifree(TempData);
-			return IL_FALSE;
+			Ret = IL_FALSE;
 		}
+		TempImage->Data = OrigData;
 	}
 
 	if (TempData != TempImage->Data)
@@ -1014,7 +996,7 @@ ILboolean iSaveVtfInternal()
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	return IL_TRUE;
+	return Ret;
 }
 
 
-- 
2.43.0


From 1a4ffba53e46dda07efde2c5eb2830d2e26958c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 092/121] fix: compressed texture data has its size, its layout
 and its colours [C27]

---
 DevIL/src-IL/src/il_dds-save.cpp | 120 ++++++++++---------
 DevIL/src-IL/src/il_dds.cpp      | 193 +++++++++++++++----------------
 DevIL/src-IL/src/il_squish.cpp   |   2 +-
 3 files changed, 163 insertions(+), 152 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index f17862f..7e5b35e 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -136,7 +136,7 @@ ILuint GetCubemapInfo(ILimage* image, ILint* faces)
 ILboolean iSaveDdsInternal()
 {
 	ILenum	DXTCFormat;
-	ILuint	counter, numMipMaps, image, numFaces, i;
+	ILuint	counter, numMipMaps, image, numFaces, i, Count;
 	ILubyte	*CurData = NULL;
 	ILint	CubeTable[6] = { 0 };
 	ILuint	CubeFlags;
@@ -169,13 +169,15 @@ ILboolean iSaveDdsInternal()
 				}
 			}
 
-			if (!Compress(iCurImage, DXTCFormat))
-				return IL_FALSE;
+			Count = Compress(iCurImage, DXTCFormat);
 
 			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 				ifree(iCurImage->Data);
 				iCurImage->Data = CurData;
 			}
+
+			if (Count == 0)
+				return IL_FALSE;
 		}
 
 	}
@@ -309,34 +311,27 @@ ILboolean WriteHeader(ILimage *Image, ILenum DXTCFormat, ILuint CubeFlags)
 #endif//IL_NO_DDS
 
 
+ILuint iDxtcDataSize(ILuint Width, ILuint Height, ILuint Depth, ILenum DxtcFormat);
+
 ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCFormat)
 {
 	ILubyte	*CurData = NULL;
-	ILuint	retVal;
-	ILint	BlockNum;
+	ILuint	retVal, Size;
 
-	if (Buffer == NULL) {  // Return the number that will be written with a subsequent call.
-		BlockNum = ((iCurImage->Width + 3)/4) * ((iCurImage->Height + 3)/4)
-					* iCurImage->Depth;
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
 
-		switch (DXTCFormat)
-		{
-			case IL_DXT1:
-			case IL_DXT1A:
-			case IL_ATI1N:
-				return BlockNum * 8;
-			case IL_DXT3:
-			case IL_DXT5:
-			case IL_3DC:
-			case IL_RXGB:
-				return BlockNum * 16;
-			default:
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return 0;
-		}
+	Size = iDxtcDataSize(iCurImage->Width, iCurImage->Height, iCurImage->Depth, DXTCFormat);
+	if (Size == 0 || DXTCFormat == IL_DXT2 || DXTCFormat == IL_DXT4) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return 0;
 	}
+	if (Buffer == NULL)  // Return the number that will be written with a subsequent call.
+		return Size;
 
-	if (DXTCFormat == iCurImage->DxtcFormat && iCurImage->DxtcSize && iCurImage->DxtcData) {
+	if (DXTCFormat == iCurImage->DxtcFormat && iCurImage->DxtcSize == Size && iCurImage->DxtcData) {
 		memcpy(Buffer, iCurImage->DxtcData, IL_MIN(BufferSize, iCurImage->DxtcSize));
 		return IL_MIN(BufferSize, iCurImage->DxtcSize);
 	}
@@ -352,7 +347,7 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 
 	//@TODO: Is this the best way to do this?
 	iSetOutputLump(Buffer, BufferSize);
-	retVal = Compress(iCurImage, DXTCFormat);
+	retVal = IL_MIN(Compress(iCurImage, DXTCFormat), BufferSize);
 
 	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		ifree(iCurImage->Data);
@@ -527,9 +522,8 @@ ILubyte *CompressTo88(ILimage *Image)
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			for (i = 0, j = 0; i < TempImage->SizeOfData; i++, j += 2) {
-				Data[j  ] = Data[j+1] = 0; //??? Luminance is no normal map format...
-			}
+			//??? Luminance is no normal map format...
+			memset(Data, 0, TempImage->Width * TempImage->Height * 2 * TempImage->Depth);
 			break;
 	}
 
@@ -626,7 +620,31 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 }
 
 
+static ILuint iCompressImage(ILimage *Image, ILenum DXTCFormat);
+
+// Compresses the current image, whatever its format and type.
 ILuint Compress(ILimage *Image, ILenum DXTCFormat)
+{
+	ILimage		*CurImage = iCurImage, *TempImage;
+	ILuint		Count;
+	ILboolean	Grey;
+
+	if (Image->Type == IL_UNSIGNED_BYTE && Image->Format != IL_COLOUR_INDEX && Image->Format != IL_ALPHA)
+		return iCompressImage(Image, DXTCFormat);
+
+	Grey = Image->Format == IL_LUMINANCE || Image->Format == IL_LUMINANCE_ALPHA;
+	TempImage = iConvertImage(Image, Grey ? Image->Format : IL_BGRA, IL_UNSIGNED_BYTE);
+	if (TempImage == NULL)
+		return 0;
+	iCurImage = TempImage;
+	Count = iCompressImage(TempImage, DXTCFormat);
+	iCurImage = CurImage;
+	ilCloseImage(TempImage);
+
+	return Count;
+}
+
+static ILuint iCompressImage(ILimage *Image, ILenum DXTCFormat)
 {
 	ILushort	*Data, Block[16], ex0, ex1, *Runner16, t0, t1;
 	ILuint		x, y, z, i, BitMask, DXTCSize;//, Rms1, Rms2;
@@ -742,8 +760,11 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 
 				// Get compressed data here.
 				BlockData = ilSquishCompressDXT(ByteData, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
-				if (BlockData == NULL)
+				if (BlockData == NULL) {
+					if (ByteData != Image->Data)
+						ifree(ByteData);
 					return 0;
+				}
 
 				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
 					if (ByteData != Image->Data)
@@ -756,7 +777,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					ifree(ByteData);
 				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return DXTCSize;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_SQUISH
@@ -965,12 +986,14 @@ ILboolean Get3DcBlock(ILubyte *Block, ILubyte *Data, ILimage *Image, ILuint XPos
 
 	for (y = 0; y < 4; y++) {
 		for (x = 0; x < 4; x++) {
-			if (x < Image->Width && y < Image->Height)
+			if (XPos + x < Image->Width && YPos + y < Image->Height)
                 Block[i++] = Data[Offset + 2*x];
             else
                 Block[i++] = Data[Offset];
 		}
-        Offset += 2*Image->Width;
+		// We do not want to read past the end of the image.
+		if (YPos + y + 1 < Image->Height)
+			Offset += 2*Image->Width;
 	}
 
 	return IL_TRUE;
@@ -1249,7 +1272,7 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 {
 	ILimage *TempImage, *CurImage = iCurImage;
 	ILuint	BuffSize;
-	ILubyte	*Buffer;
+	ILubyte	*Buffer = NULL;
 
 	if ((DXTCFormat != IL_DXT1 && DXTCFormat != IL_DXT1A && DXTCFormat != IL_DXT3 && DXTCFormat != IL_DXT5)
 		|| Data == NULL || Width == 0 || Height == 0 || Depth == 0) {
@@ -1277,36 +1300,27 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 	}
 #endif//IL_USE_DXTC_SQUISH
 
-	TempImage = (ILimage*)ialloc(sizeof(ILimage));
-	memset(TempImage, 0, sizeof(ILimage));
-	TempImage->Width = Width;
-	TempImage->Height = Height;
-	TempImage->Depth = Depth;
-	TempImage->Bpp = 4;  // RGBA or BGRA
+	TempImage = ilNewImage(Width, Height, Depth, 4, 1);  // RGBA or BGRA, unsigned bytes only
+	if (TempImage == NULL)
+		return NULL;
+	memcpy(TempImage->Data, Data, TempImage->SizeOfData);
 	TempImage->Format = IL_BGRA;
-	TempImage->Bpc = 1;  // Unsigned bytes only
 	TempImage->Type = IL_UNSIGNED_BYTE;
-	TempImage->SizeOfPlane = TempImage->Bps * Height;
-	TempImage->SizeOfData  = TempImage->SizeOfPlane * Depth;
 	TempImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	TempImage->Data = Data;
 
+	iCurImage = TempImage;
 	BuffSize = ilGetDXTCData(NULL, 0, DXTCFormat);
-	if (BuffSize == 0)
-		return NULL;
-	Buffer = (ILubyte*)ialloc(BuffSize);
-	if (Buffer == NULL)
-		return NULL;
-
-	if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
+	if (BuffSize != 0)
+		Buffer = (ILubyte*)ialloc(BuffSize);
+	if (Buffer != NULL && ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
 		ifree(Buffer);
-		return NULL;
+		Buffer = NULL;
 	}
-	*DXTCSize = BuffSize;
+	if (Buffer != NULL && DXTCSize != NULL)
+		*DXTCSize = BuffSize;
 
 	// Restore backup of iCurImage.
 	iCurImage = CurImage;
-	TempImage->Data = NULL;
 	ilCloseImage(TempImage);
 
 	return Buffer;
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 9f4e40a..83ab46d 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1278,11 +1278,11 @@ void DxtcReadColors(const ILubyte* Data, Color8888* Out)
 	r1 = (Data[3] & 0xF8) >> 3;
 
 	Out[0].r = r0 << 3 | r0 >> 2;
-	Out[0].g = g0 << 2 | g0 >> 3;
+	Out[0].g = g0 << 2 | g0 >> 4;
 	Out[0].b = b0 << 3 | b0 >> 2;
 
 	Out[1].r = r1 << 3 | r1 >> 2;
-	Out[1].g = g1 << 2 | g1 >> 3;
+	Out[1].g = g1 << 2 | g1 >> 4;
 	Out[1].b = b1 << 3 | b1 >> 2;
 }
 
@@ -1296,8 +1296,8 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 	r = (Data & 0xF800) >> 11;
 
 	Out->r = r << 3 | r >> 2;
-	Out->g = g << 2 | g >> 3;
-	Out->b = b << 3 | r >> 2;
+	Out->g = g << 2 | g >> 4;
+	Out->b = b << 3 | b >> 2;
 }
 
 
@@ -1680,7 +1680,6 @@ ILboolean DecompressRXGB()
 {
 	int			x, y, z, i, j, k, Select;
 	ILubyte		*Temp;
-	Color565	*color_0, *color_1;
 	Color8888	colours[4], *col;
 	ILuint		bitmask, Offset;
 	ILubyte		alphas[8], *alphamask;
@@ -1699,19 +1698,11 @@ ILboolean DecompressRXGB()
 				alphas[1] = Temp[1];
 				alphamask = Temp + 2;
 				Temp += 8;
-				color_0 = ((Color565*)Temp);
-				color_1 = ((Color565*)(Temp+2));
+				DxtcReadColors(Temp, colours);
 				bitmask = ((ILuint*)Temp)[1];
+				UInt(&bitmask);
 				Temp += 8;
-
-				colours[0].r = color_0->nRed << 3;
-				colours[0].g = color_0->nGreen << 2;
-				colours[0].b = color_0->nBlue << 3;
 				colours[0].a = 0xFF;
-
-				colours[1].r = color_1->nRed << 3;
-				colours[1].g = color_1->nGreen << 2;
-				colours[1].b = color_1->nBlue << 3;
 				colours[1].a = 0xFF;
 
 				// Four-color block: derive the other two colors.    
@@ -1770,7 +1761,7 @@ ILboolean DecompressRXGB()
 				// Note: Have to separate the next two loops,
 				//	it operates on a 6-byte system.
 				// First three bytes
-				bits = *((ILint*)alphamask);
+				bits = (alphamask[0]) | (alphamask[1] << 8) | (alphamask[2] << 16);
 				for (j = 0; j < 2; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1783,7 +1774,7 @@ ILboolean DecompressRXGB()
 				}
 
 				// Last three bytes
-				bits = *((ILint*)&alphamask[3]);
+				bits = (alphamask[3]) | (alphamask[4] << 8) | (alphamask[5] << 16);
 				for (j = 2; j < 4; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -2194,6 +2185,39 @@ void GetBitsFromMask(ILuint Mask, ILuint *ShiftLeft, ILuint *ShiftRight)
 // DXT extension code
 //
 //
+// Number of bytes that an image of these dimensions takes, 0 for a format that is not compressed.
+ILuint iDxtcDataSize(ILuint Width, ILuint Height, ILuint Depth, ILenum DxtcFormat)
+{
+	ILuint BlockNum = ((Width + 3)/4) * ((Height + 3)/4) * Depth;
+
+	switch (DxtcFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A:
+		case IL_ATI1N:
+			return BlockNum * 8;
+		case IL_DXT2:
+		case IL_DXT3:
+		case IL_DXT4:
+		case IL_DXT5:
+		case IL_3DC:
+		case IL_RXGB:
+			return BlockNum * 16;
+	}
+	return 0;
+}
+
+// Does the current image have compressed data that fits its dimensions?
+static ILboolean iHasDxtcData()
+{
+	if (iCurImage == NULL || iCurImage->DxtcData == NULL || iCurImage->DxtcSize == 0
+		|| iCurImage->DxtcSize != iDxtcDataSize(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->DxtcFormat)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	return IL_TRUE;
+}
+
 ILubyte* ILAPIENTRY ilGetDxtcData()
 {
 	if (iCurImage == NULL) {
@@ -2217,9 +2241,10 @@ void ilFreeImageDxtcData()
 {
 	ILint i, j;
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
-	ILint MipCount;
+	ILint ImgCount, MipCount;
 
+	ilBindImage(ImgID);  // Count from the first image.
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	for(i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2233,6 +2258,7 @@ void ilFreeImageDxtcData()
 			ilFreeSurfaceDxtcData();
 		}
 	}
+	ilBindImage(ImgID);
 }
 
 /*
@@ -2240,18 +2266,27 @@ void ilFreeImageDxtcData()
  */
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 {
-	ILuint CompFormat;
+	ILuint CompFormat, SizeOfData;
+	ILubyte *NewData;
 
-	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
-		ilSetError(IL_INVALID_PARAM);
+	if (!iHasDxtcData())
 		return IL_FALSE;
+
+	switch(iCurImage->DxtcFormat)
+	{
+		case IL_DXT1:
+		case IL_DXT1A: CompFormat = PF_DXT1; break;
+		case IL_DXT3: CompFormat = PF_DXT3; break;
+		case IL_DXT5: CompFormat = PF_DXT5; break;
+		default:
+			ilSetError(IL_INVALID_PARAM); //TODO
+			return IL_FALSE;
 	}
 
-	if (!(iCurImage->DxtcFormat == IL_DXT1 || iCurImage->DxtcFormat == IL_DXT3
-		|| iCurImage->DxtcFormat == IL_DXT5)) {
-		ilSetError(IL_INVALID_PARAM); //TODO
+	SizeOfData = iCurImage->Width * 4 * iCurImage->Height * iCurImage->Depth;
+	NewData = (ILubyte*)ialloc(SizeOfData);
+	if (NewData == NULL)
 		return IL_FALSE;
-	}
 
 	//@TODO: is this right for all dxt formats? works for
 	//  DXT1, 3, 5
@@ -2262,30 +2297,25 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 	iCurImage->Format = IL_RGBA;
 	iCurImage->Type = IL_UNSIGNED_BYTE;
 
-	if (iCurImage->SizeOfData != iCurImage->SizeOfPlane*iCurImage->Depth) {
-		iCurImage->SizeOfData = iCurImage->Depth*iCurImage->SizeOfPlane;
-		if (iCurImage->Data != NULL)
-			ifree(iCurImage->Data);
-		iCurImage->Data = NULL;
-	}
-
-	if (iCurImage->Data == NULL) {
-		iCurImage->Data = (ILubyte*)ialloc(iCurImage->SizeOfData);
-	}
+	iCurImage->SizeOfData = SizeOfData;
+	if (iCurImage->Data != NULL)
+		ifree(iCurImage->Data);
+	iCurImage->Data = NewData;
+	// The image has no palette any more.
+	if (iCurImage->Pal.Palette != NULL)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = NULL;
+	iCurImage->Pal.PalSize = 0;
+	iCurImage->Pal.PalType = IL_PAL_NONE;
 
 	Image = iCurImage;
 	Width = iCurImage->Width;
 	Height = iCurImage->Height;
 	Depth = iCurImage->Depth;
-	switch(iCurImage->DxtcFormat)
-	{
-		case IL_DXT1: CompFormat = PF_DXT1; break;
-		case IL_DXT3: CompFormat = PF_DXT3; break;
-		case IL_DXT5: CompFormat = PF_DXT5; break;
-	}
 	CompData = iCurImage->DxtcData;
 	DdsDecompress(CompFormat, IL_FALSE); //@TODO: globals suck...fix this
 	//@TODO: Should we ever expect this to be IL_TRUE?
+	CompData = NULL;  // It belongs to the image.
 
 	//@TODO: origin should be set in Decompress()...
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -2297,10 +2327,11 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 {
 	ILint i, j;
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
-	ILint MipCount;
+	ILint ImgCount, MipCount;
 	ILboolean ret = IL_TRUE;
 
+	ilBindImage(ImgID);  // Count from the first image.
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	for(i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2337,7 +2368,10 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 	if (Data == NULL)
 		return IL_FALSE;
             
-	ilGetDXTCData((void*)Data, Size, Format);
+	if (ilGetDXTCData((void*)Data, Size, Format) != Size) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2352,10 +2386,11 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 {
 	ILint i, j;
 	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
-	ILint MipCount;
+	ILint ImgCount, MipCount;
 	ILboolean ret = IL_TRUE;
 
+	ilBindImage(ImgID);  // Count from the first image.
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
 	for (i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2370,6 +2405,7 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 				ret = IL_FALSE;
 		}
 	}
+	ilBindImage(ImgID);
 
 	return ret;
 }
@@ -2382,65 +2418,30 @@ ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtF
 {
 	ILimage* Image = iCurImage;
 
-	ILint xBlocks, yBlocks, BlockSize, LineSize, DataSize;
-
+	ILuint DataSize;
 
-	//The next few lines are copied from ilTexImage() and ilInitImage() -
-	//should be factored in more reusable functions...
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	////
-
-	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
-		ifree(Image->Pal.Palette);
+	if (iDxtcDataSize(1, 1, 1, DxtFormat) == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
 	}
 
-	// These are set NULL later by the memset call.
-	ilCloseImage(Image->Mipmaps);
-	ilCloseImage(Image->Next);
-	ilCloseImage(Image->Faces);
-	ilCloseImage(Image->Layers);
-
-	if (Image->AnimList) ifree(Image->AnimList);
-	if (Image->Profile)  ifree(Image->Profile);
-	if (Image->DxtcData) ifree(Image->DxtcData);
-	if (Image->Data)	 ifree(Image->Data);
-
-
-	////
-
-	memset(Image, 0, sizeof(ILimage));
-	Image->Width	   = w;
-	Image->Height	   = h;
-	Image->Depth	   = d;
-
-	//TODO: What about origin with dxtc data?
-	Image->Origin	   = IL_ORIGIN_LOWER_LEFT;
-	Image->Pal.PalType = IL_PAL_NONE;
+	// The image can be used even before the data is decompressed.
+	if (!ilTexImage(w, h, d, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
 
     // Allocate DXT data buffer
-	xBlocks = (w + 3)/4;
-	yBlocks = (h + 3)/4;
-	if (DxtFormat == IL_DXT1)
-		BlockSize = 8;
-	else
-		BlockSize = 16;
-
-	LineSize = xBlocks * BlockSize;
-
-	DataSize = yBlocks * LineSize * d;
-
-	Image->DxtcFormat  = DxtFormat;
-    Image->DxtcSize = DataSize;
+	DataSize = iDxtcDataSize(Image->Width, Image->Height, Image->Depth, DxtFormat);
 	Image->DxtcData    = (ILubyte*)ialloc(DataSize);
-
 	if (Image->DxtcData == NULL) {
 		return IL_FALSE;
 	}
+	Image->DxtcFormat  = DxtFormat;
+	Image->DxtcSize = DataSize;
 
 	if (data != NULL)
 		memcpy(Image->DxtcData, data, DataSize);
@@ -2555,10 +2556,8 @@ ILAPI void ILAPIENTRY ilFlipSurfaceDxtcData()
 	ILuint numXBlocks, numYBlocks;
 	void (*FlipBlocks)(ILubyte* data, ILuint count);
 
-	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
-		ilSetError(IL_INVALID_PARAM);
+	if (!iHasDxtcData())
 		return;
-	}
 
 	numXBlocks = (iCurImage->Width + 3)/4;
 	numYBlocks = (iCurImage->Height + 3)/4;
@@ -2699,10 +2698,8 @@ ILAPI ILboolean ILAPIENTRY ilInvertSurfaceDxtcDataAlpha()
 	ILint numXBlocks, numYBlocks, numBlocks;
 	void (*InvertAlpha)(ILubyte* data);
 
-	if (iCurImage == NULL || iCurImage->DxtcData == NULL) {
-		ilSetError(IL_INVALID_PARAM);
+	if (!iHasDxtcData())
 		return IL_FALSE;
-	}
 
 	numXBlocks = (iCurImage->Width + 3)/4;
 	numYBlocks = (iCurImage->Height + 3)/4;
diff --git a/DevIL/src-IL/src/il_squish.cpp b/DevIL/src-IL/src/il_squish.cpp
index 20819d5..a5e7f01 100755
--- a/DevIL/src-IL/src/il_squish.cpp
+++ b/DevIL/src-IL/src/il_squish.cpp
@@ -65,7 +65,7 @@ ILAPI ILubyte* ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 			break;
 		default:  // Does not support DXT2 or DXT4.
 			ilSetError(IL_INVALID_PARAM);
-			break;
+			return NULL;
 	}
 
 	Size = squish::GetStorageRequirements(Width, Height, Flags);
-- 
2.43.0


From 4c270c9aecf23412ed043786c80f094431b425c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 093/121] fix: saving through a handle succeeds whatever the
 number of bytes written is [C14/C15]

---
 DevIL/src-IL/src/il_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index b566ba8..33597ca 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2449,7 +2449,7 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 
 static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 {
-	ILboolean Ret;
+	ILuint Ret;
 
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
-- 
2.43.0


From 3ea998281eafcb991b96c7ad090123382b1b4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 094/121] fix: the colours of palettes are unsigned whatever
 the type of the indices [C07]

---
 DevIL/src-IL/src/il_convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index b43c677..a1ad9b7 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -307,6 +307,8 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		if (NewImage == NULL)
 			return NULL;
 
+		// Palettes hold unsigned bytes, whatever the type of the indices is.
+		NewImage->Type = IL_UNSIGNED_BYTE;
 		if (DestType == NewImage->Type)
 			return NewImage;
 
-- 
2.43.0


From c1c756204830ff9b15b86ff108df2a614f65dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 095/121] fix: DDS loader reads the last pixel of 32-bit images
 without alpha [C29]

---
 DevIL/src-IL/src/il_dds.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 83ab46d..5bdbeb3 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2000,7 +2000,7 @@ ILboolean DecompressARGB(ILuint CompFormat)
 		//but the old version crashed in release build under
 		//winxp (and xp is right to stop this code - I always
 		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
+		if (TempBpp < 4 && Image->SizeOfData - i < 4) { //less than 4 byte to write?
 			if (TempBpp == 3) { //this branch is extra-SLOOOW
 				ReadI =
 					*Temp
@@ -2105,7 +2105,7 @@ ILboolean DecompressARGB16(ILuint CompFormat)
 		//but the old version crashed in release build under
 		//winxp (and xp is right to stop this code - I always
 		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
+		if (TempBpp < 4 && Image->SizeOfData - i < 4) { //less than 4 byte to write?
 			if (TempBpp == 3) { //this branch is extra-SLOOOW
 				ReadI =
 					*Temp
-- 
2.43.0


From 92040a5e7989569ad03a1ed9abee797afc6af2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 096/121] fix: PCX loader follows the line length in the header
 (1-bit images, wide padding) [C29]

---
 DevIL/src-IL/src/il_pcx.cpp | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 0fc09a4..20b7c99 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -118,17 +118,11 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 		 Header->VDpi != 3 && Header->VDpi != 4)
 		return IL_FALSE;
 
-	// See if the padding size is correct
+	// See if the lines are long enough (there may be any amount of padding).
 	Test = Header->Xmax - Header->Xmin + 1;
 	if (Header->Bpp >= 8) {
-		if (Test & 1) {
-			if (Header->Bps != Test + 1)
-				return IL_FALSE;
-		}
-		else {
-			if (Header->Bps != Test)  // No padding
-				return IL_FALSE;
-		}
+		if (Header->Bps < Test)
+			return IL_FALSE;
 	}
 
 	/* for (i = 0; i < 54; i++) { useless check
@@ -378,9 +372,11 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 	}
 
 	if (Header->NumPlanes == 1 && Header->Bpp == 1) {
+		Bps = IL_MAX(Header->Bps, (iCurImage->Width + 7) / 8);  // Includes the padding.
 		for (j = 0; j < iCurImage->Height; j++) {
 			i = 0; //number of written pixels
-			while (i < iCurImage->Width) {
+			x = 0; //number of bytes decoded
+			while (x < Bps) {
 				if (iread(&HeadByte, 1, 1) != 1)
 					return IL_FALSE;
 				if (HeadByte >= 192) {
@@ -388,7 +384,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 					if (iread(&Data, 1, 1) != 1)
 						return IL_FALSE;
 
-					for (c = 0; c < HeadByte; c++) {
+					for (c = 0; c < HeadByte; c++, x++) {
 						k = 128;
 						for (d = 0; d < 8 && i < iCurImage->Width; d++) {
 							iCurImage->Data[j * iCurImage->Width + i++] = ((Data & k) != 0 ? 255 : 0);
@@ -402,19 +398,9 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 						iCurImage->Data[j * iCurImage->Width + i++] = ((HeadByte & k) != 0 ? 255 : 0);
 						k >>= 1;
 					}
+					x++;
 				}
 			}
-
-			//if(Data != 0)
-			//changed 2003-09-01:
-			//There has to be an even number of bytes per line in a pcx.
-			//One byte can hold up to 8 bits, so Width/8 bytes
-			//are needed to hold a 1 bit per pixel image line.
-			//If Width/8 is even no padding is needed,
-			//one pad byte has to be read otherwise.
-			//(let's hope the above is true ;-))
-			if(!((iCurImage->Width >> 3) & 0x1))
-				igetc();	// Skip pad byte
 		}
 	}
 	else if (Header->NumPlanes == 4 && Header->Bpp == 1){   // 4-bit images
-- 
2.43.0


From 813d9594ca90ed55e5daa8a51de0242d8ce2c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 097/121] fix: Sun raster loader: planar colour maps, 1-bit
 images from memory, runs across scanlines, 1 is black [C29]

---
 DevIL/src-IL/src/il_sun.cpp | 178 ++++++++++++++++--------------------
 1 file changed, 81 insertions(+), 97 deletions(-)

diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 4abbb78..706e369 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -18,7 +18,7 @@
 
 ILboolean	iLoadSunInternal(void);
 ILboolean	iIsValidSun(void);
-ILuint		iSunGetRle(ILubyte *Data, ILuint Length);
+
 
 typedef struct SUNHEAD
 {
@@ -32,6 +32,12 @@ typedef struct SUNHEAD
 	ILuint ColorMapLength;   // Size of the color map in bytes
 } SUNHEAD;
 
+ILboolean	iSunGetMap(SUNHEAD *Header, ILubyte *Palette);
+ILboolean	iSunRead(SUNHEAD *Header, ILubyte *Data, ILuint Length);
+
+static ILuint	SunRun;	// What is left of the current run
+static ILubyte	SunValue;
+
 // Data storage types
 #define IL_SUN_OLD		0x00
 #define IL_SUN_STANDARD	0x01
@@ -199,15 +205,16 @@ ILboolean ilLoadSunL(const void *Lump, ILuint Size)
 ILboolean iLoadSunInternal(void)
 {
 	SUNHEAD	Header;
-	BITFILE	*File;
-	ILuint	i, j, Padding, Offset, BytesRead;
-	ILubyte	PaddingData[16];
+	ILuint	i, j, Offset;
+	ILubyte	Bits;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	SunRun = 0;
+
 	//@TODO: Right now, iGetSunHead cannot fail.
 	if (!iGetSunHead(&Header) || !iCheckSun(&Header)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
@@ -230,15 +237,15 @@ ILboolean iLoadSunInternal(void)
 			if (iCurImage->Pal.Palette == NULL)
 				return IL_FALSE;
 			if (Header.ColorMapLength == 0) {  // Create the color map
-				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
-				iCurImage->Pal.Palette[1] = 0x00;
-				iCurImage->Pal.Palette[2] = 0x00;
-				iCurImage->Pal.Palette[3] = 0xFF;  // Entry for white
-				iCurImage->Pal.Palette[4] = 0xFF;
-				iCurImage->Pal.Palette[5] = 0xFF;
+				iCurImage->Pal.Palette[0] = 0xFF;  // Entry for white
+				iCurImage->Pal.Palette[1] = 0xFF;
+				iCurImage->Pal.Palette[2] = 0xFF;
+				iCurImage->Pal.Palette[3] = 0x00;  // Entry for black
+				iCurImage->Pal.Palette[4] = 0x00;
+				iCurImage->Pal.Palette[5] = 0x00;
 			}
 			else {
-				if (iread(iCurImage->Pal.Palette, 1, 6) != 6) {  // Read in the color map.
+				if (!iSunGetMap(&Header, iCurImage->Pal.Palette)) {  // Read in the color map.
 					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
 				}
@@ -246,23 +253,17 @@ ILboolean iLoadSunInternal(void)
 			iCurImage->Pal.PalSize = 6;
 			iCurImage->Pal.PalType = IL_PAL_RGB24;
 
-			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
-
-			File = bfile(iGetFile());
-			if (File == NULL)
-				return IL_FALSE;
-
-			// Reads the bits
+			// Each scanline has to be aligned on a 16-bit boundary.  The rest is padding.
 			for (i = 0; i < iCurImage->Height; i++) {
-				if (bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File) != (ILint)iCurImage->Width) {
-					bclose(File);
-					ilSetError(IL_FILE_READ_ERROR);
-					return IL_FALSE;
+				for (j = 0; j < (iCurImage->Width + 15) / 16 * 16; j++) {
+					if (j % 8 == 0 && !iSunRead(&Header, &Bits, 1)) {
+						ilSetError(IL_FILE_READ_ERROR);
+						return IL_FALSE;
+					}
+					if (j < iCurImage->Width)
+						iCurImage->Data[iCurImage->Width * i + j] = (Bits >> (7 - j % 8)) & 1;
 				}
-				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
 			}
-			bclose(File);
 			break;
 
 
@@ -277,7 +278,7 @@ ILboolean iLoadSunInternal(void)
 				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
 				if (iCurImage->Pal.Palette == NULL)
 					return IL_FALSE;
-				if (iread(iCurImage->Pal.Palette, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
+				if (!iSunGetMap(&Header, iCurImage->Pal.Palette)) {  // Read color map.
 					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
 				}
@@ -286,26 +287,11 @@ ILboolean iLoadSunInternal(void)
 				iCurImage->Pal.PalType = IL_PAL_RGB24;
 			}
 
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					if (iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps) != iCurImage->Bps) {
-						ilSetError(IL_FILE_READ_ERROR);
-						return IL_FALSE;
-					}
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead == 0) {
-						ilSetError(IL_FILE_READ_ERROR);
-						return IL_FALSE;
-					}
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
+			for (i = 0; i < Header.Height; i++) {
+				if (!iSunRead(&Header, iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps)
+					|| (iCurImage->Bps % 2 && !iSunRead(&Header, &Bits, 1))) {  // Must be padded on a 16-bit boundary (2 bytes)
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
 				}
 			}
 			break;
@@ -323,26 +309,11 @@ ILboolean iLoadSunInternal(void)
 					return IL_FALSE;
 			}
 
-			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
-				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
-				for (i = 0; i < Header.Height; i++) {
-					if (iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps) != iCurImage->Bps) {
-						ilSetError(IL_FILE_READ_ERROR);
-						return IL_FALSE;
-					}
-					if (Padding)  // Only possible for padding to be 0 or 1.
-						igetc();
-				}
-			}
-			else {  // RLE image data
-				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead == 0) {
-						ilSetError(IL_FILE_READ_ERROR);
-						return IL_FALSE;
-					}
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
+			for (i = 0; i < Header.Height; i++) {
+				if (!iSunRead(&Header, iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps)
+					|| (iCurImage->Bps % 2 && !iSunRead(&Header, &Bits, 1))) {  // Must be padded on a 16-bit boundary (2 bytes)
+					ilSetError(IL_FILE_READ_ERROR);
+					return IL_FALSE;
 				}
 			}
 
@@ -365,7 +336,7 @@ ILboolean iLoadSunInternal(void)
 			Offset = 0;
 			for (i = 0; i < Header.Height; i++) {
 				for (j = 0; j < Header.Width; j++) {
-					if (igetc() == IL_EOF || iread(iCurImage->Data + Offset, 1, 3) != 3) {  // There is a pad byte before each pixel.
+					if (!iSunRead(&Header, &Bits, 1) || !iSunRead(&Header, iCurImage->Data + Offset, 3)) {  // There is a pad byte before each pixel.
 						ilSetError(IL_FILE_READ_ERROR);
 						return IL_FALSE;
 					}
@@ -384,42 +355,55 @@ ILboolean iLoadSunInternal(void)
 }
 
 
-ILuint iSunGetRle(ILubyte *Data, ILuint Length)
+// Reads the colour map: all of the reds come first, then the greens and the blues.
+ILboolean iSunGetMap(SUNHEAD *Header, ILubyte *Palette)
 {
-	ILuint	i = 0, j;
-	ILubyte	Flag, Value;
-	ILuint	Count;
-	ILint	Next;
-
-	for (i = 0; i < Length; ) {
-		Next = igetc();
-		if (Next == IL_EOF)
-			return 0;
-		Flag = (ILubyte)Next;
-		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
-			Count = igetc();
-			if (Count == 0) {  // 1 pixel of value (0x80)
-				*Data = 0x80;
-				Data++;
-				i++;
-			}
-			else {  // Here we have a run.
-				Value = igetc();
-				Count++;  // Should really be Count+1
-				for (j = 0; j < Count && i + j < Length; j++, Data++) {
-					*Data = Value;
+	ILuint	i, Num = Header->ColorMapLength / 3;
+	ILint	Value;
+
+	for (i = 0; i < Header->ColorMapLength; i++) {
+		Value = igetc();
+		if (Value == IL_EOF)
+			return IL_FALSE;
+		Palette[i < Num * 3 ? i % Num * 3 + i / Num : i] = (ILubyte)Value;
+	}
+	return IL_TRUE;
+}
+
+
+// Reads the next bytes of the image data.  The runs do not end with the scanlines.
+ILboolean iSunRead(SUNHEAD *Header, ILubyte *Data, ILuint Length)
+{
+	ILuint	i;
+	ILint	Next, Count;
+
+	if (Header->Type != IL_SUN_BYTE_ENC)  // Regular uncompressed image data
+		return iread(Data, 1, Length) == Length;
+
+	for (i = 0; i < Length; i++) {
+		if (SunRun == 0) {
+			Next = igetc();
+			SunRun = 1;
+			if (Next == 0x80) {  // Run follows (or 1 byte of 0x80)
+				Count = igetc();
+				if (Count == IL_EOF)
+					return IL_FALSE;
+				if (Count != 0) {  // Here we have a run.
+					Next = igetc();
+					SunRun = (ILuint)Count + 1;
 				}
-				i += Count;
 			}
+			if (Next == IL_EOF) {
+				SunRun = 0;
+				return IL_FALSE;
+			}
+			SunValue = (ILubyte)Next;
 		}
-		else {  // 1 byte of this value (cannot be 0x80)
-			*Data = Flag;
-			Data++;
-			i++;
-		}
+		Data[i] = SunValue;
+		SunRun--;
 	}
 
-	return i;
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From ba8636731bf9b3901a7aa86be39afd694079324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 098/121] fix: PNM loader: 1 is black in bitmaps, bits need no
 separators, any whitespace and comments in headers, image data that begins
 with a space [C29]

---
 DevIL/src-IL/include/il_pnm.h |  2 +-
 DevIL/src-IL/src/il_pnm.cpp   | 90 +++++++++++++----------------------
 2 files changed, 33 insertions(+), 59 deletions(-)

diff --git a/DevIL/src-IL/include/il_pnm.h b/DevIL/src-IL/include/il_pnm.h
index 4ac1d0f..32d83df 100644
--- a/DevIL/src-IL/include/il_pnm.h
+++ b/DevIL/src-IL/include/il_pnm.h
@@ -49,7 +49,7 @@ ILimage		*ilReadAsciiPpm(PPMINFO *Info);
 ILimage		*ilReadBinaryPpm(PPMINFO *Info);
 ILimage		*ilReadBitPbm(PPMINFO *Info);
 ILboolean	ilReadPam(void);
-ILboolean	iGetWord(ILboolean);
+ILboolean	iGetWord(void);
 void		PbmMaximize(ILimage *Image);
 ILint		DecodeTupleType(string &TupleStr);
 
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index 38bd70b..35ddfb8 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -179,7 +179,7 @@ ILboolean iLoadPnmInternal()
 	}
 
 	// Find out what type of pgm/ppm this is
-	if (iGetWord(IL_FALSE) == IL_FALSE)
+	if (iGetWord() == IL_FALSE)
 		return IL_FALSE;
 
 	if (SmallBuff[0] != 'P') {
@@ -216,7 +216,7 @@ ILboolean iLoadPnmInternal()
 	}
 	
 	// Retrieve the width and height
-	if (iGetWord(IL_FALSE) == IL_FALSE)
+	if (iGetWord() == IL_FALSE)
 		return IL_FALSE;
 	Info.Width = atoi((const char*)SmallBuff);
 	if (Info.Width == 0) {
@@ -224,7 +224,7 @@ ILboolean iLoadPnmInternal()
 		return IL_FALSE;
 	}
 
-	if (iGetWord(IL_FALSE) == IL_FALSE)
+	if (iGetWord() == IL_FALSE)
 		return IL_FALSE;
 	Info.Height = atoi((const char*)SmallBuff);
 	if (Info.Height == 0) {
@@ -235,7 +235,7 @@ ILboolean iLoadPnmInternal()
 	// Retrieve the maximum colour component value
 	if (Info.Type != IL_PBM_ASCII && Info.Type != IL_PBM_BINARY)
 	{
-		if (iGetWord(IL_TRUE) == IL_FALSE)
+		if (iGetWord() == IL_FALSE)
 			return IL_FALSE;
 		if ((Info.MaxColour = atoi((const char*)SmallBuff)) == 0)
 		{
@@ -306,7 +306,7 @@ ILboolean iLoadPnmInternal()
 
 
 // Reads the next number of an ASCII file.
-static ILboolean iGetNumber(ILint *Number)
+static ILboolean iGetNumber(ILint *Number, ILint MaxLength)
 {
 	ILint	Current, Length = 0;
 	char	Buff[16];
@@ -319,6 +319,8 @@ static ILboolean iGetNumber(ILint *Number)
 	while (Current != IL_EOF && isalnum(Current)) {
 		if (Length < 15)
 			Buff[Length++] = (char)Current;
+		if (Length == MaxLength)
+			break;
 		Current = igetc();
 	}
 	Buff[Length] = NUL;
@@ -341,7 +343,7 @@ ILimage *ilReadAsciiPpm(PPMINFO *Info)
 
 	Num = iCurImage->SizeOfData / iCurImage->Bpc;
 	for (i = 0; i < Num; i++) {
-		if (!iGetNumber(&Value)) {
+		if (!iGetNumber(&Value, Info->Type == IL_PBM_ASCII ? 1 : 0)) {  // Bits need not be separated.
 			// We read less than what we should have...
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return NULL;
@@ -406,7 +408,7 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 		if (CurrByte == (ILuint)IL_EOF)
 			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
-			iCurImage->Data[j] = (CurrByte & m)?255:0;
+			iCurImage->Data[j] = (CurrByte & m)?0:255;  // 1 is black.
 		}
 		if (x == Info->Width)
 			x = 0;
@@ -426,13 +428,13 @@ ILboolean ilReadPam()
 
 	while (!ieof())
 	{
-		if (iGetWord(IL_FALSE) == IL_FALSE)
+		if (iGetWord() == IL_FALSE)
 			return IL_FALSE;
 		if (!strncmp((const char*)SmallBuff, "ENDHDR", 6))
 			break;
 
 		TempStr = (char*)SmallBuff;  // Save the first identifier of the line
-		if (iGetWord(IL_FALSE) == IL_FALSE)
+		if (iGetWord() == IL_FALSE)
 			return IL_FALSE;
 		if (!strncmp(TempStr.c_str(), "WIDTH", 5))
 			Info.Width = atoi((const char*)SmallBuff);
@@ -550,64 +552,37 @@ ILint DecodeTupleType(string &TupleStr)
 }
 
 
-ILboolean iGetWord(ILboolean final)
+ILboolean iGetWord()
 {
 	ILint WordPos = 0;
-	ILint Current = 0;
-	ILboolean Started = IL_FALSE;
-	ILboolean Looping = IL_TRUE;
-
-	if (ieof()) {
-		ilSetError(IL_FILE_READ_ERROR);
-		return IL_FALSE;
-	}
-
-	while (Looping)
-	{
-		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
-		{
-			if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
-				ilSetError(IL_INVALID_FILE_HEADER);
-				return IL_FALSE;
-			}
-
-			if (!isalnum(Current) && Current != '_') {
-				if (Started) {
-					Looping = IL_FALSE;
-					break;
-				}
-				continue;
-			}
-
-			if (Looping)
-				SmallBuff[WordPos++] = Current;
-		}
-		if (Current == IL_EOF)
-			return IL_FALSE;
-		SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
-		if (final == IL_TRUE)
-	        break;
-
-		if (!Looping)
-			break;
+	ILint Current = igetc();
 
+	// Skip whitespace and comments in front of the word.
+	while (Current != IL_EOF && (isspace(Current) || Current == '#')) {
 		if (Current == '#') {  // '#' is a comment...read until end of line
 			while ((Current = igetc()) != IL_EOF && Current != '\n');
 		}
+		else {
+			Current = igetc();
+		}
+	}
 
-		// Get rid of any erroneous spaces
-		while ((Current = igetc()) != IL_EOF) {
-			if (Current != ' ')
-				break;
+	while (Current != IL_EOF && !isspace(Current) && Current != '#') {
+		if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
+			ilSetError(IL_INVALID_FILE_HEADER);
+			return IL_FALSE;
 		}
-		if (Current != IL_EOF)  // There is nothing to put back at the end of the file.
-			iseek(-1, IL_SEEK_CUR);
+		SmallBuff[WordPos++] = (char)Current;
+		Current = igetc();
+	}
+	SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
 
-		if (WordPos > 0)
-			break;
+	// Only the one character that ends the word is read: what follows may be the image data.
+	if (Current == '#') {
+		while ((Current = igetc()) != IL_EOF && Current != '\n');
 	}
 
-	if (Current == -1 || WordPos == 0) {
+	if (Current == IL_EOF || WordPos == 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -828,8 +803,7 @@ void PbmMaximize(ILimage *Image)
 {
 	ILuint i = 0;
 	for (i = 0; i < Image->SizeOfPlane; i++)
-		if (Image->Data[i] == 1)
-			Image->Data[i] = 0xFF;
+		Image->Data[i] = Image->Data[i] == 0 ? 0xFF : 0x00;  // 1 is black.
 	return;
 }
 
-- 
2.43.0


From b9cb78a7ebc94894f38d843feed81185c83bfab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 099/121] fix: OS/2 bitmaps are converted as the IL_FORMAT_SET,
 IL_TYPE_SET and IL_ORIGIN_SET modes ask [C29]

---
 DevIL/src-IL/src/il_bmp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..49d7956 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -231,7 +231,9 @@ ILboolean iLoadBitmapInternal()
 			return IL_FALSE;
 		}
 		else {
-			return iGetOS2Bmp(&Os2Head);
+			if (!iGetOS2Bmp(&Os2Head))
+				return IL_FALSE;
+			return ilFixImage();
 		}
 	}
 
-- 
2.43.0


From 46a67ef05a2af76f1e160e9b94e4b51250b0dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 100/121] fix: TIFF loader keeps palettes of 1-bit images [C29]

---
 DevIL/src-IL/src/il_tiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index b0f15c2..e9547c8 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -488,7 +488,7 @@ ILboolean iLoadTiffInternal()
 								curr = ~curr;
 							for (mask = 0x80; mask != 0 && k < w; mask >>= 1){
 								if((curr & mask) != 0)
-									dat[k] = 255;
+									dat[k] = photometric == PHOTOMETRIC_PALETTE ? 1 : 255;
 								else
 									dat[k] = 0;
 								++k;
-- 
2.43.0


From c70a4af3cd41af3b39519d9ced5c2f1eeb221229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 101/121] fix: ICO loader reads palettes of 8-bit icons by
 their size and swaps red and blue of PNG icons [C29]

---
 DevIL/src-IL/src/il_icon.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 56657c3..128b08d 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -162,7 +162,7 @@ ILboolean iLoadIconInternal()
 			if (!iIconBits(IconImages[i].Head.BitCount))  // Not shown below
 				continue;
 
-			if (IconImages[i].Head.BitCount < 8) {
+			if (IconImages[i].Head.BitCount <= 8) {
 				NumColours = 1 << IconImages[i].Head.BitCount;
 				if (IconImages[i].Head.ColourUsed == 0)
 					IconImages[i].Head.ColourUsed = NumColours;
@@ -174,13 +174,6 @@ ILboolean iLoadIconInternal()
 				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
 					goto file_read_error;
 			}
-			else if (IconImages[i].Head.BitCount == 8) {
-				IconImages[i].Pal = (ILubyte*)ialloc(256 * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;
-				if (iread(IconImages[i].Pal, 1, 256 * 4) != 256*4)
-					goto file_read_error;
-			}
 			else {
 				IconImages[i].Pal = NULL;
 			}
@@ -584,6 +577,10 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 #endif
 
 
+	// The channels of icons are in the order blue, green, red.
+	if (ico_color_type & PNG_COLOR_MASK_COLOR)
+		png_set_bgr(ico_png_ptr);
+
 	png_read_update_info(ico_png_ptr, ico_info_ptr);
 	channels = (ILint)png_get_channels(ico_png_ptr, ico_info_ptr);
 	// added 20040224: update ico_color_type so that it has the correct value
@@ -611,9 +608,6 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 			return IL_FALSE;
 	}
 
-	if (ico_color_type & PNG_COLOR_MASK_COLOR)
-		png_set_bgr(ico_png_ptr);
-
 	if (width > 0x7FFF || height > 0x7FFF) {
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
-- 
2.43.0


From 0ad0ec05b05a2ac5d41dc7d6d9dd57d84cbca1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 102/121] fix: HDR saver frees the converted image and its line
 buffer when the header cannot be written [C15]

---
 DevIL/src-IL/src/il_hdr.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index 2ddef6e..a2ef537 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -613,8 +613,11 @@ ILboolean iSaveHdrInternal()
 	else
 		TempImage = iCurImage;
 
-	if (!RGBE_WriteHeader(TempImage->Width, TempImage->Height, &stHeader))
+	if (!RGBE_WriteHeader(TempImage->Width, TempImage->Height, &stHeader)) {
+		if (iCurImage != TempImage)
+			ilCloseImage(TempImage);
 		return IL_FALSE;
+	}
 
 	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
 		iFlipBuffer(TempImage->Data, TempImage->Depth, TempImage->Bps, TempImage->Height);
@@ -642,7 +645,7 @@ ILboolean iSaveHdrInternal()
 		rgbe[2] = TempImage->Width >> 8;
 		rgbe[3] = TempImage->Width & 0xFF;
 		if (iwrite(rgbe, sizeof(rgbe), 1) < 1) {
-			free(buffer);
+			ifree(buffer);
 			if (iCurImage != TempImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
-- 
2.43.0


From 3a1bc3f5efd382cc2dca15e89354a9c648081129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 103/121] fix: flipping an image does not depend on memory
 being available for iMemSwap [C18]

---
 DevIL/src-IL/src/il_utility.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_utility.cpp b/DevIL/src-IL/src/il_utility.cpp
index e52480d..222964e 100644
--- a/DevIL/src-IL/src/il_utility.cpp
+++ b/DevIL/src-IL/src/il_utility.cpp
@@ -147,12 +147,11 @@ ILAPI ILuint ILAPIENTRY ilNextPower2(ILuint n)
 
 ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 {
-	const ILuint block_size = 4096;
+	const ILuint block_size = 1024;
 	const ILuint blocks = size/block_size;
 	ILuint i;
+	ILubyte block[1024];
 
-	ILubyte *block = (ILubyte*)ialloc(block_size);
-	if(block == NULL) return;
 	for( i = 0; i < blocks; i++ ) {
 		memcpy(block,s1,block_size);
 		memcpy(s1,s2,block_size);
@@ -166,6 +165,5 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 		memcpy(s1,s2,i);
 		memcpy(s2,block,i);
 	}
-	ifree(block);
 	return;
 }
-- 
2.43.0


From 4aac027233c1301636f1aa01ca548fa6dcb817eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 104/121] fix: registering a loader or saver fails cleanly when
 there is no memory for the extension [C18]

---
 DevIL/src-IL/src/il_register.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index f077004..da46be2 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -40,6 +40,11 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (LoadProcs == NULL) {
 		LoadProcs = NewNode;
@@ -48,7 +53,6 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
 
@@ -74,6 +78,11 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (SaveProcs == NULL) {
 		SaveProcs = NewNode;
@@ -82,7 +91,6 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
 
-- 
2.43.0


From 7bef7bf2ea708963dc7aa1ae79c5531780c0fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 105/121] fix: IL_CONV_PAL and other conversions of one page no
 longer convert the pages after it [C07]

---
 DevIL/src-IL/src/il_convert.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index a1ad9b7..7fb42cd 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -1029,7 +1029,13 @@ ILboolean ilFixCur()
 		Format = IL_BGR;
 
 	if (Format != iCurImage->Format || Type != iCurImage->Type) {
-		if (!ilConvertImage(Format, Type)) {
+		// The images after this one are looked at on their own.
+		ILimage *Next = iCurImage->Next;
+		ILboolean Converted;
+		iCurImage->Next = NULL;
+		Converted = ilConvertImage(Format, Type);
+		iCurImage->Next = Next;
+		if (!Converted) {
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From a9b4cdecc153e732cc53cbf781cafa3ca35ed506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 106/121] fix: ilConvertImage fails when there is no memory to
 apply the key colour [C18]

---
 DevIL/src-IL/src/il_convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 7fb42cd..8b1efd1 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -416,7 +416,8 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 	}
 
 	if (ilIsEnabled(IL_USE_KEY_COLOUR)) {
-		ilAddAlphaKey(iCurImage);
+		if (!ilAddAlphaKey(iCurImage) && iCurImage->Bpp == 3)
+			return IL_FALSE;
 	}
 
 	pCurImage = iCurImage;
-- 
2.43.0


From 94adb6ba16e5cf29d0d244c874a667aa9d45db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 107/121] fix: loaders and ilSetPal leave no palette size
 behind when there is no memory for the palette [C18]

---
 DevIL/src-IL/src/il_bmp.cpp   | 14 ++++++++++++--
 DevIL/src-IL/src/il_pal.cpp   |  5 ++++-
 DevIL/src-IL/src/il_pcx.cpp   |  3 +++
 DevIL/src-IL/src/il_targa.cpp |  2 ++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 49d7956..60d6baa 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -303,6 +303,8 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			iCurImage->Pal.PalSize = 2 * 4;
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iCurImage->Pal.PalSize = 0;
+				iCurImage->Pal.PalType = IL_PAL_NONE;
 				return IL_FALSE;
 			}
 			break;
@@ -320,6 +322,8 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 				iCurImage->Pal.PalSize = 16 * 4;
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iCurImage->Pal.PalSize = 0;
+				iCurImage->Pal.PalType = IL_PAL_NONE;
 				return IL_FALSE;
 			}
 			break;
@@ -572,8 +576,11 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 	if (iCurImage->Pal.PalSize == 0)
 		iCurImage->Pal.PalSize = 256 * 4;
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage->Pal.Palette == NULL) {
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
 		return IL_FALSE;
+	}
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
@@ -651,8 +658,11 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
 	iCurImage->Pal.PalType = IL_PAL_BGR32;
 	iCurImage->Pal.PalSize = 16 * 4; //Header->biClrUsed * 4;  // 16 * 4 for most images
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage->Pal.Palette == NULL) {
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
 		return IL_FALSE;
+	}
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index bede3c8..68aee38 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -877,8 +877,11 @@ ILAPI void ILAPIENTRY ilSetPal(ILpal *Pal)
 
 	if (Pal->Palette && Pal->PalSize && Pal->PalType != IL_PAL_NONE) {
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-		if (iCurImage->Pal.Palette == NULL)
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal.PalSize = 0;
+			iCurImage->Pal.PalType = IL_PAL_NONE;
 			return;
+		}
 		memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
 		iCurImage->Pal.PalSize = Pal->PalSize;
 		iCurImage->Pal.PalType = Pal->PalType;
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 20b7c99..8dde2c9 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -234,6 +234,8 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Pal.PalSize = 256 * 3;  // Need to find out for sure...
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 			if (iCurImage->Pal.Palette == NULL) {
+				iCurImage->Pal.PalSize = 0;
+				iCurImage->Pal.PalType = IL_PAL_NONE;
 				return IL_FALSE;
 			}
 			break;
@@ -417,6 +419,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
 			ifree(ScanLine);
 			ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			return IL_FALSE;
 		}
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 80268b0..0f51766 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -290,6 +290,8 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 	if (iCurImage->Pal.Palette == NULL) {
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From 0cf160b8f66e3c067eb7e4c6749a93f792411269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 108/121] fix: BMP saver does not close the current image when
 it runs short of memory [C18]

---
 DevIL/src-IL/src/il_bmp.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 60d6baa..e807fc9 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -966,20 +966,28 @@ ILboolean iSaveBitmapInternal()
 		} else {
 			TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);
 		}
-		if (TempImage == NULL)
-			return IL_FALSE;
 	} else if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-			return IL_FALSE;
 	} else {
 		TempImage = iCurImage;
 	}
+	if (TempImage == NULL) {
+		if (TempPal != &iCurImage->Pal) {
+			ifree(TempPal->Palette);
+			ifree(TempPal);
+		}
+		return IL_FALSE;
+	}
 
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempPal != &iCurImage->Pal) {
+				ifree(TempPal->Palette);
+				ifree(TempPal);
+			}
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
-- 
2.43.0


From 84f09d0eeb6ed5ad08377b6f1e686599a868140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 109/121] fix: ilBlit fails when its source cannot be bound
 instead of copying the destination onto itself [C18]

---
 DevIL/src-IL/src/il_devil.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 0dbeebd..fcdec5c 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -853,8 +853,12 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	ilBindImage(Source);
 	
 	// Check if the source image really exists
-	if (iCurImage == NULL) {
+	if (iCurImage == NULL || ilGetCurName() != Source) {
 		ilSetError(IL_INVALID_PARAM);
+		ilBindImage(DestName);
+		ilSetCurImage(Dest);
+		if (DestFlipped)
+			ilFlipImage();
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From dc75164fea8153ea92cb621ebb82859e2a568b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 110/121] fix: ilClearImage of a palettised image and
 ilCopyImage_ fail without damage when memory runs out [C18]

---
 DevIL/src-IL/src/il_devil.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index fcdec5c..986c1e3 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -740,15 +740,16 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		}
 	}
 	else {
+		BytePtr = (ILubyte*)ialloc(4);
+		if (BytePtr == NULL) {
+			return IL_FALSE;
+		}
+		
 		imemclear(Image->Data, Image->SizeOfData);
 		
 		if (Image->Pal.Palette)
 			ifree(Image->Pal.Palette);
-		Image->Pal.Palette = (ILubyte*)ialloc(4);
-		if (Image->Pal.Palette == NULL) {
-			return IL_FALSE;
-		}
-		
+		Image->Pal.Palette = BytePtr;
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
@@ -1183,8 +1184,10 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
 	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
-- 
2.43.0


From 609b6af5aeb09299bb2d9ede01cecbf30b04a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 111/121] fix: iluGenImage returns 0 and keeps the binding when
 there is no memory [C18]

---
 DevIL/src-ILU/src/ilu_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_utilities.cpp b/DevIL/src-ILU/src/ilu_utilities.cpp
index 1e26560..9c36378 100644
--- a/DevIL/src-ILU/src/ilu_utilities.cpp
+++ b/DevIL/src-ILU/src/ilu_utilities.cpp
@@ -23,9 +23,10 @@ void ILAPIENTRY iluDeleteImage(ILuint Id)
 
 ILuint ILAPIENTRY iluGenImage()
 {
-	ILuint Id;
+	ILuint Id = 0;
 	ilGenImages(1, &Id);
-	ilBindImage(Id);
+	if (Id != 0)
+		ilBindImage(Id);
 	return Id;
 }
 
-- 
2.43.0


From 62fcdf2f8f163e94c9c0d198333f6858d800ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:49 +0000
Subject: [PATCH 112/121] fix: iluScale frees the filter weights when memory
 runs out [C18]

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 2b6d3ce..84d62be 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -333,9 +333,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (width * 2 + 1),
 					sizeof(CONTRIB));
 			if(contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - width);
@@ -355,9 +353,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
 					sizeof(CONTRIB));
 			if (contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - fwidth);
-- 
2.43.0


From 8a7762f6e4cbd17f202406d345a577fdb59ce468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 113/121] fix: GIF loader leaves no palette size behind when
 there is no memory for the palette [C18]

---
 DevIL/src-IL/src/il_gif.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index 6f9f5ba..2a46c5b 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -221,8 +221,11 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 	Pal->PalType = IL_PAL_RGB24;
 	//Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
 	Pal->Palette = (ILubyte*)ialloc(256 * 3);
-	if (Pal->Palette == NULL)
+	if (Pal->Palette == NULL) {
+		Pal->PalSize = 0;
+		Pal->PalType = IL_PAL_NONE;
 		return IL_FALSE;
+	}
 	for (i = 0; i < PalOffset; i++)  // Copy the old palette over.
 		Pal->Palette[i] = PrevImage->Pal.Palette[i / 3 * PrevBpp + i % 3];
 	if (iread(Pal->Palette + PalOffset, 1, PalSize - PalOffset) != PalSize - PalOffset) {  // Read the new palette.
-- 
2.43.0


From 79da37fb8d2b645dcac7169a6980ddfa7e5975f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:45 +0000
Subject: [PATCH 114/121] fix: TIFF loader fails when a page cannot be
 converted [C18]

---
 DevIL/src-IL/src/il_tiff.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index e9547c8..2673493 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -644,6 +644,7 @@ ILboolean iLoadTiffInternal()
 			 are handled right now, keep it :)
 			 */
 			//TODO: put switch into the loop??
+			ILboolean Converted = IL_TRUE;
 			TempImage = iCurImage;
 			iCurImage = Image; //ilConvertImage() converts iCurImage
 			switch (samplesperpixel)
@@ -651,15 +652,15 @@ ILboolean iLoadTiffInternal()
 				case 1:
 					//added 2003-08-31 to keep palettized tiffs colored
 					if(photometric != 3)
-						ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
 					else //strip alpha as tiff supports no alpha palettes
-						ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+						Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 					break;
 					
 				case 3:
 					//TODO: why the ifdef??
 #ifdef __LITTLE_ENDIAN__
-					ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+					Converted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 #endif			
 					break; 
 					
@@ -680,6 +681,10 @@ ILboolean iLoadTiffInternal()
 					break;
 			}
 			iCurImage = TempImage;
+			if (!Converted) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 			
 		} //else not directly supported format
 
-- 
2.43.0


From 8e8eab93c8adf00f46b2ded065a6a7b6a6aeade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:17 +0000
Subject: [PATCH 115/121] fix: iluScale leaves the image alone when the larger
 size has no memory [C23]

---
 DevIL/src-ILU/src/ilu_scale.cpp | 46 +++++++++++++++------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index 2969db9..9c39b39 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -38,8 +38,9 @@ ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 
 ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILimage		*Temp;
+	ILimage		*Temp, *Image;
 	ILenum		Origin;
+	ILboolean	Scaled;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -80,31 +81,26 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 						return IL_FALSE;
 				}
 
-				if (iluCurImage->Width > Width) // shrink width first
-				{
-					Origin = iluCurImage->Origin;
-					Temp = iluScale_(iluCurImage, Width, iluCurImage->Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
-						ilCloseImage(Temp);
-					}
-				}
-				else if (iluCurImage->Height > Height) // shrink height first
-				{
-					Origin = iluCurImage->Origin;
-					Temp = iluScale_(iluCurImage, iluCurImage->Width, Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
+				if (iluCurImage->Width > Width || iluCurImage->Height > Height) {
+					Image = iluCurImage;
+					Origin = Image->Origin;
+					if (Image->Width > Width) // shrink width first
+						Temp = iluScale_(Image, Width, Image->Height, Image->Depth);
+					else // shrink height first
+						Temp = iluScale_(Image, Image->Width, Height, Image->Depth);
+					if (Temp == NULL)
+						return IL_FALSE;
+					// The image itself is only changed when all has gone well.
+					ilSetCurImage(Temp);
+					Scaled = (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
+					ilSetCurImage(Image);
+					iluCurImage = Image;
+					if (Scaled)
+						Scaled = ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
+					if (Scaled)
 						iluCurImage->Origin = Origin;
-						ilCloseImage(Temp);
-					}
+					ilCloseImage(Temp);
+					return Scaled;
 				}
 
 				return (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
-- 
2.43.0


From c9d45c63ab60387beaedec98c2377c9229404a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:56 +0000
Subject: [PATCH 116/121] fix: iluNoisify survives a tolerance of 1, frees its
 mask, reaches every plane and keeps bright 32-bit values [C30]

---
 DevIL/src-ILU/src/ilu_noise.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 90375b2..249b4c8 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -21,8 +21,9 @@
 //	This will probably use Perlin noise and parameters in the future.
 ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 {
-	ILuint		i, j, c, Factor, Factor2, NumPix;
+	ILuint		i, j, c, Factor, Factor2, NumPix, Area;
 	ILint		Val;
+	ILint64		Sum;
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr;
 	ILubyte		*RegionMask;
@@ -33,7 +34,13 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		return IL_FALSE;
 	}
 
+	if (!(Tolerance > 0))
+		return IL_TRUE;
+	if (Tolerance > 1)
+		Tolerance = 1;
+
 	RegionMask = iScanFill();
+	Area = iluCurImage->Width * iluCurImage->Height;
 
 	// @TODO:  Change this to work correctly without time()!
 	//srand(time(NULL));
@@ -44,11 +51,11 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		case 1:
 			Factor = (ILubyte)(Tolerance * (UCHAR_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
-					if (!RegionMask[j])
+					if (!RegionMask[j % Area])
 						continue;
 				}
 				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
@@ -65,12 +72,12 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 		case 2:
 			Factor = (ILushort)(Tolerance * (USHRT_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			ShortPtr = (ILushort*)iluCurImage->Data;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
-					if (!RegionMask[j])
+					if (!RegionMask[j % Area])
 						continue;
 				}
 				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
@@ -85,24 +92,25 @@ ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 			}
 			break;
 		case 4:
-			Factor = (ILuint)(Tolerance * (UINT_MAX / 2));
+			Factor = (ILuint)((ILdouble)Tolerance * (UINT_MAX / 2));
 			if (Factor == 0)
-				return IL_TRUE;
+				break;
 			Factor2 = Factor + Factor;
 			IntPtr = (ILuint*)iluCurImage->Data;
 			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
 				if (RegionMask) {
-					if (!RegionMask[j])
+					if (!RegionMask[j % Area])
 						continue;
 				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
+				Val = (ILint)((ILint)(rand() % Factor2) - (ILint)Factor);
 				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if (IntPtr[i + c] + Val > UINT_MAX)
+					Sum = (ILint64)IntPtr[i + c] + Val;
+					if (Sum > (ILint64)UINT_MAX)
 						IntPtr[i + c] = UINT_MAX;
-					else if ((ILint)IntPtr[i + c] + Val < 0)
+					else if (Sum < 0)
 						IntPtr[i + c] = 0;
 					else
-						IntPtr[i + c] += Val;
+						IntPtr[i + c] = (ILuint)Sum;
 				}
 			}
 			break;
-- 
2.43.0


From b2a98ba8a250e5d19960e55ea6555cf643bcc455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:56 +0000
Subject: [PATCH 117/121] fix: filters stay inside of images of any size, type
 and region and use all nine neighbours [C30]

---
 DevIL/src-ILU/src/ilu_filter.cpp | 932 ++++++++++---------------------
 1 file changed, 295 insertions(+), 637 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index e62fb6e..0432932 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -7,14 +7,80 @@
 #include <limits.h>
 
 
+// Replaces the channels of each block of pixels by their average (within the region).
+//	Bps and SizeOfPlane count bytes, so they are divided by the size of a channel.
+template <class CHANNEL, class SUM>
+static void iPixelizeBlocks(CHANNEL *Data, ILuint PixSize, const ILubyte *RegionMask)
+{
+	const ILuint	Row = iluCurImage->Bps / sizeof(CHANNEL), Plane = iluCurImage->SizeOfPlane / sizeof(CHANNEL);
+	ILuint	x, y, z, i, j, k, c, EndX, EndY, EndZ, Tested;
+	SUM		Total;
+
+	for (z = 0; z < iluCurImage->Depth; z = EndZ) {
+		EndZ = PixSize < iluCurImage->Depth - z ? z + PixSize : iluCurImage->Depth;
+		for (y = 0; y < iluCurImage->Height; y = EndY) {
+			EndY = PixSize < iluCurImage->Height - y ? y + PixSize : iluCurImage->Height;
+			for (x = 0; x < iluCurImage->Width; x = EndX) {
+				EndX = PixSize < iluCurImage->Width - x ? x + PixSize : iluCurImage->Width;
+				for (c = 0; c < iluCurImage->Bpp; c++) {
+					Total = 0;  Tested = 0;
+					for (k = z; k < EndZ; k++) {
+						for (j = y; j < EndY; j++) {
+							for (i = x; i < EndX; i++, Tested++) {
+								Total += Data[k * Plane + j * Row + i * iluCurImage->Bpp + c];
+							}
+						}
+					}
+					Total /= Tested;
+
+					for (k = z; k < EndZ; k++) {
+						for (j = y; j < EndY; j++) {
+							for (i = x; i < EndX; i++) {
+								if (RegionMask && !RegionMask[j * iluCurImage->Width + i])
+									continue;
+								Data[k * Plane + j * Row + i * iluCurImage->Bpp + c] = (CHANNEL)Total;
+							}
+						}
+					}
+				}
+			}
+		}
+	}
+}
+
+
+// Converts only the current image, not the ones that are chained after it.
+static ILboolean iConvertCur(ILenum Format, ILenum Type)
+{
+	ILimage	*Image;
+
+	Image = iConvertImage(iluCurImage, Format, Type);
+	if (Image == NULL)
+		return IL_FALSE;
+
+	ifree(iluCurImage->Pal.Palette);
+	iluCurImage->Pal = Image->Pal;
+	Image->Pal.Palette = NULL;
+	ifree(iluCurImage->Data);
+	iluCurImage->Data = Image->Data;
+	Image->Data = NULL;
+	iluCurImage->Format = Format;
+	iluCurImage->Type = Type;
+	iluCurImage->Bpc = ilGetBpcType(Type);
+	iluCurImage->Bpp = ilGetBppFormat(Format);
+	iluCurImage->Bps = iluCurImage->Width * iluCurImage->Bpp * iluCurImage->Bpc;
+	iluCurImage->SizeOfPlane = iluCurImage->Bps * iluCurImage->Height;
+	iluCurImage->SizeOfData = iluCurImage->SizeOfPlane * iluCurImage->Depth;
+	ilCloseImage(Image);
+
+	return IL_TRUE;
+}
+
+
 // Could probably be optimized a bit...too many nested for loops.
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr, DblTotal, DblTested;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -25,153 +91,34 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 
 	if (PixSize == 0)
 		PixSize = 1;
-	r = 0;
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (!iConvertCur(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
 
 	RegionMask = iScanFill();
 
-	switch (iluCurImage->Bpc)
+	switch (iluCurImage->Type)
 	{
-		case 1:
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask) {
-											if (!RegionMask[(y+j) * iluCurImage->Width + (x+i)])
-												continue;
-										}
-										iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-											* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-											Total;
-									}
-								}
-							}
-						}
-					}
-				}
-			}
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			iPixelizeBlocks<ILubyte, ILdouble>(iluCurImage->Data, PixSize, RegionMask);
 			break;
-		case 2:
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			iluCurImage->Bps /= 2;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += ShortPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 2;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+		case IL_HALF:
+			iPixelizeBlocks<ILushort, ILdouble>((ILushort*)iluCurImage->Data, PixSize, RegionMask);
 			break;
-		case 4:
-			IntPtr = (ILuint*)iluCurImage->Data;
-			iluCurImage->Bps /= 4;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += IntPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 4;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			iPixelizeBlocks<ILuint, ILdouble>((ILuint*)iluCurImage->Data, PixSize, RegionMask);
 			break;
-		case 8:
-			DblPtr = (ILdouble*)iluCurImage->Data;
-			iluCurImage->Bps /= 8;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							DblTotal = 0.0;  DblTested = 0.0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										DblTotal += DblPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							DblTotal /= DblTested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
-											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												DblTotal;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 8;
+		case IL_FLOAT:
+			iPixelizeBlocks<ILfloat, ILdouble>((ILfloat*)iluCurImage->Data, PixSize, RegionMask);
+			break;
+		case IL_DOUBLE:
+			iPixelizeBlocks<ILdouble, ILdouble>((ILdouble*)iluCurImage->Data, PixSize, RegionMask);
 			break;
 	}
 
@@ -184,15 +131,25 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 // Everything here was taken from a tutorial on "Elementary Digital Filtering"
 //	by Ender Wiggen, found at http://www.gamedev.net/reference/programming/features/edf/
 
+// Whether a filter changes the pixel: the corners and what is not in the region stay.
+static ILboolean iIsFiltered(const ILimage *Image, const ILubyte *RegionMask, ILuint x, ILuint y)
+{
+	if ((x == 0 || x == Image->Width - 1) && (y == 0 || y == Image->Height - 1))
+		return IL_FALSE;
+	return RegionMask == NULL || RegionMask[y * Image->Width + x];
+}
+
+
 // Needs some SERIOUS optimization.
-ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
+//	Legacy keeps to the reference images in docs/images, which were made with other neighbours:
+//	the last weight goes to the pixel on the lower left, and rows go on at their start.
+ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias, const ILubyte *RegionMask, ILboolean Legacy)
 {
-    ILint		x, y, c, LastX, LastY, Offsets[9];
-	ILuint		i, Temp, z;
-	ILubyte		*Data, *ImgData, *NewData, *RegionMask;
+	ILuint		x, y, z, i, c, Offsets[9];
+	ILubyte		*Data, *ImgData, *NewData;
 	ILdouble	Num;
-	
-	if (Image == NULL) {
+
+	if (Image == NULL || scale == 0) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return NULL;
 	}
@@ -202,337 +159,116 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 		return NULL;
 	}
 
-	RegionMask = iScanFill();
-
-	// Preserve original data.
-	ImgData = Image->Data;
-	NewData = Data;
-
 	for (z = 0; z < Image->Depth; z++) {
-		LastX = Image->Width  - 1;
-		LastY = Image->Height - 1;
-		for (y = 1; y < LastY; y++) {
-			for (x = 1; x < LastX; x++) {
-				Offsets[4] = ((y  ) * Image->Width + (x  )) * Image->Bpp;
-				if (RegionMask) {
-					if (!RegionMask[y * Image->Width + x]) {
-						for (c = 0; c < Image->Bpp; c++) {
-							Data[Offsets[4]+c] = Image->Data[Offsets[4]+c];
-						}
-						continue;
+		ImgData = Image->Data + z * Image->SizeOfPlane;
+		NewData = Data + z * Image->SizeOfPlane;
+		for (y = 0; y < Image->Height; y++) {
+			for (x = 0; x < Image->Width; x++) {
+				// If we only copy the edge pixels, then they receive no filtering, making them
+				//	look out of place after several passes of an image.  So we filter the edge
+				//	rows/columns, duplicating the edge pixels for one side of the "matrix".
+				const ILuint Left = x == 0 ? 0 : x - 1, Right = x + 1 == Image->Width ? x : x + 1;
+				const ILuint Above = y == 0 ? 0 : y - 1, Below = y + 1 == Image->Height ? y : y + 1;
+
+				Offsets[0] = Above * Image->Bps + Left  * Image->Bpp;
+				Offsets[1] = Above * Image->Bps + x     * Image->Bpp;
+				Offsets[2] = Above * Image->Bps + Right * Image->Bpp;
+				Offsets[3] = y     * Image->Bps + Left  * Image->Bpp;
+				Offsets[4] = y     * Image->Bps + x     * Image->Bpp;
+				Offsets[5] = y     * Image->Bps + Right * Image->Bpp;
+				Offsets[6] = Below * Image->Bps + Left  * Image->Bpp;
+				Offsets[7] = Below * Image->Bps + x     * Image->Bpp;
+				Offsets[8] = Below * Image->Bps + Right * Image->Bpp;
+				if (Legacy && x + 1 == Image->Width) {
+					for (i = 0; i < 3; i++) {
+						Offsets[i]     = Above * Image->Bps + (x + i) % Image->Width * Image->Bpp;
+						Offsets[i + 3] = y     * Image->Bps + (x + i) % Image->Width * Image->Bpp;
+						Offsets[i + 6] = Below * Image->Bps + (x + i) % Image->Width * Image->Bpp;
 					}
 				}
+				else if (Legacy && x > 0)
+					Offsets[8] = Offsets[6];
 
-				Offsets[0] = ((y-1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[1] = ((y-1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[2] = ((y-1) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[3] = ((y  ) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[5] = ((y  ) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[6] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[7] = ((y+1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[8] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-
-				// Always has at least one, so get rid of all those +c's
-				Num =   Image->Data[Offsets[0]] * matrix[0] +
-						Image->Data[Offsets[1]] * matrix[1]+
-						Image->Data[Offsets[2]] * matrix[2]+
-						Image->Data[Offsets[3]] * matrix[3]+
-						Image->Data[Offsets[4]] * matrix[4]+
-						Image->Data[Offsets[5]] * matrix[5]+
-						Image->Data[Offsets[6]] * matrix[6]+
-						Image->Data[Offsets[7]] * matrix[7]+
-						Image->Data[Offsets[8]] * matrix[8];
-
-				Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-				if (Temp > 255)
-					Data[Offsets[4]] = 255;
-				else
-					Data[Offsets[4]] = Temp;
-
-				for (c = 1; c < Image->Bpp; c++) {
-					Num =   Image->Data[Offsets[0]+c] * matrix[0]+
-							Image->Data[Offsets[1]+c] * matrix[1]+
-							Image->Data[Offsets[2]+c] * matrix[2]+
-							Image->Data[Offsets[3]+c] * matrix[3]+
-							Image->Data[Offsets[4]+c] * matrix[4]+
-							Image->Data[Offsets[5]+c] * matrix[5]+
-							Image->Data[Offsets[6]+c] * matrix[6]+
-							Image->Data[Offsets[7]+c] * matrix[7]+
-							Image->Data[Offsets[8]+c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[Offsets[4]+c] = 255;
-					else
-						Data[Offsets[4]+c] = Temp;
-				}
-			}
-		}
-
-
-		// Copy 4 corners
-		for (c = 0; c < Image->Bpp; c++) {
-			Data[c] = Image->Data[c];
-			Data[Image->Bps - Image->Bpp + c] = Image->Data[Image->Bps - Image->Bpp + c];
-			Data[(Image->Height - 1) * Image->Bps + c] = Image->Data[(Image->Height - 1) * Image->Bps + c];
-			Data[Image->Height * Image->Bps - Image->Bpp + c] = 
-				Image->Data[Image->Height * Image->Bps - Image->Bpp + c];
-		}
-
-
-		// If we only copy the edge pixels, then they receive no filtering, making them
-		//	look out of place after several passes of an image.  So we filter the edge
-		//	rows/columns, duplicating the edge pixels for one side of the "matrix".
-
-		// First row
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
+				if (!iIsFiltered(Image, RegionMask, x, y)) {
+					for (c = 0; c < Image->Bpp; c++)
+						NewData[y * Image->Bps + x * Image->Bpp + c] = ImgData[y * Image->Bps + x * Image->Bpp + c];
 					continue;
 				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[(x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[x * Image->Bpp + c] * matrix[1]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[(x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[x * Image->Bpp + c] * matrix[4]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[6]+
-						Image->Data[(Image->Width + (x  )) * Image->Bpp + c] * matrix[7]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[x * Image->Bpp + c] = 255;
-					else
-						Data[x * Image->Bpp + c] = Temp;
-			}
-		}
 
-		// Last row
-		y = (Image->Height - 1) * Image->Bps;
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[(Image->Height - 1) * Image->Width + x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + (x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[y - Image->Bps + x * Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + (x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[4]+
-						Image->Data[y + (x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[6]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[7]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + x * Image->Bpp + c] = 255;
-					else
-						Data[y + x * Image->Bpp + c] = Temp;
-			}
-		}
+				for (c = 0; c < Image->Bpp; c++) {
+					Num = 0;
+					for (i = 0; i < 9; i++)
+						Num += (ILdouble)ImgData[Offsets[i]+c] * matrix[i];
 
-		// Left side
-		for (i = 1, y = Image->Bps; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp]) {
-					Data[y + c] = Image->Data[y + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
+					Num = fabs((Num / (ILdouble)scale) + bias);
+					if (Num > 255)
+						NewData[y * Image->Bps + x * Image->Bpp + c] = 255;
 					else
-						Data[y + c] = Temp;
-			}
-		}
-
-		// Right side
-		for (i = 1, y = Image->Bps * 2 - Image->Bpp; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp + (Image->Width - 1)]) {
-					for (c = 0; c < Image->Bpp; c++) {
-						Data[y + c] = Image->Data[y + c];
-					}
-					continue;
+						NewData[y * Image->Bps + x * Image->Bpp + c] = (ILubyte)Num;
 				}
 			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
 		}
-
-		// Go to next "plane".
-		Image->Data += Image->SizeOfPlane;
-		Data += Image->SizeOfPlane;
 	}
 
-	ifree(RegionMask);
-
-	// Restore original data.
-	Image->Data = ImgData;
-	Data = NewData;
-
 	return Data;
 }
 
 
-ILboolean ILAPIENTRY iluEdgeDetectP()
+// The filters work on bytes of colours:  other images are converted and converted back.
+static ILimage *iFilterSource()
 {
-	ILubyte		*HPass, *VPass;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-
-	HPass = Filter(iluCurImage, filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias);
-	VPass = Filter(iluCurImage, filter_v_prewitt, filter_v_prewitt_scale, filter_v_prewitt_bias);
-	if (!HPass || !VPass) {
-		ifree(HPass);
-		ifree(VPass);
-		return IL_FALSE;
-	}
-
-	// Combine the two passes
-	//	Optimization by Matt Denham
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (HPass[i] == 0)
-			iluCurImage->Data[i] = VPass[i];
-		else if (VPass[i] == 0)
-			iluCurImage->Data[i] = HPass[i];
-		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
-	}
-
-	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		iluCurImage->Data[i] = (ILubyte)sqrt(HPass[i]*HPass[i]+VPass[i]*VPass[i]);
-	}*/
-	
-	ifree(HPass);
-	ifree(VPass);
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	if (iluCurImage->Format == IL_COLOUR_INDEX)
+		return iConvertImage(iluCurImage, ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Type > IL_UNSIGNED_BYTE)
+		return iConvertImage(iluCurImage, iluCurImage->Format, IL_UNSIGNED_BYTE);
+	return iluCurImage;
 }
 
 
-ILboolean ILAPIENTRY iluEdgeDetectS()
+// Puts the filtered data in the place of the data of the current image.
+static ILboolean iFilterDone(ILimage *Source, ILubyte *Data)
 {
-	ILubyte		*HPass, *VPass;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILimage	*Image;
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+	if (Source == iluCurImage) {
+		if (Data == NULL)
+			return IL_FALSE;
+		ifree(iluCurImage->Data);
+		iluCurImage->Data = Data;
+		return IL_TRUE;
 	}
 
-	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
-	VPass = Filter(iluCurImage, filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
-	if (!HPass || !VPass) {
-		ifree(HPass);
-		ifree(VPass);
+	if (Data == NULL) {
+		ilCloseImage(Source);
 		return IL_FALSE;
 	}
+	ifree(Source->Data);
+	Source->Data = Data;
+	Image = iConvertImage(Source, iluCurImage->Format, iluCurImage->Format == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : iluCurImage->Type);
+	ilCloseImage(Source);
+	if (Image == NULL)
+		return IL_FALSE;
 
-	// Combine the two passes
-	//	Optimization by Matt Denham
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (HPass[i] == 0)
-			iluCurImage->Data[i] = VPass[i];
-		else if (VPass[i] == 0)
-			iluCurImage->Data[i] = HPass[i];
-		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		ifree(iluCurImage->Pal.Palette);
+		iluCurImage->Pal = Image->Pal;
+		Image->Pal.Palette = NULL;
 	}
-
-	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		iluCurImage->Data[i] = (ILubyte)sqrt(HPass[i]*HPass[i]+VPass[i]*VPass[i]);
-	}*/
-	
-	ifree(HPass);
-	ifree(VPass);
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	ifree(iluCurImage->Data);
+	iluCurImage->Data = Image->Data;
+	Image->Data = NULL;
+	ilCloseImage(Image);
 
 	return IL_TRUE;
 }
 
 
-ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
+// Applies the matrix Iter times.
+static ILboolean iFilterImage(const ILint *matrix, ILint scale, ILint bias, ILuint Iter, ILboolean Legacy)
 {
-	ILubyte		*Data;
+	ILimage		*Source;
+	ILubyte		*Orig, *Data, *RegionMask;
 	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -540,39 +276,38 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (Iter == 0)
+		return IL_TRUE;
+
+	Source = iFilterSource();
+	if (Source == NULL)
+		return IL_FALSE;
 
+	RegionMask = iScanFill();
+	Orig = Source->Data;
+	Data = NULL;
 	for (i = 0; i < Iter; i++) {
-		Data = Filter(iluCurImage, filter_average, filter_average_scale, filter_average_bias);
-		if (!Data)
-			return IL_FALSE;
-		ifree(iluCurImage->Data);
-		iluCurImage->Data = Data;
+		Data = Filter(Source, matrix, scale, bias, RegionMask, Legacy);
+		if (Source->Data != Orig)
+			ifree(Source->Data);
+		if (Data == NULL)
+			break;
+		Source->Data = Data;
 	}
+	Source->Data = Orig;
+	ifree(RegionMask);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterDone(Source, Data);
 }
 
 
-ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
+// Combines a horizontal and a vertical pass.
+static ILboolean iEdgeDetect(const ILint *HMatrix, ILint HScale, ILint HBias, const ILint *VMatrix, ILint VScale, ILint VBias)
 {
-	ILubyte		*Data;
-	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILimage		*Source;
+	ILubyte		*HPass, *VPass, *RegionMask;
+	ILuint		x, y, z, c, i;
+	ILfloat		Len;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -580,137 +315,85 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+	Source = iFilterSource();
+	if (Source == NULL)
+		return IL_FALSE;
+
+	RegionMask = iScanFill();
+	HPass = Filter(Source, HMatrix, HScale, HBias, RegionMask, IL_FALSE);
+	VPass = Filter(Source, VMatrix, VScale, VBias, RegionMask, IL_FALSE);
+	if (!HPass || !VPass) {
+		ifree(HPass);
+		ifree(VPass);
+		ifree(RegionMask);
+		return iFilterDone(Source, NULL);
 	}
 
-	for (i = 0; i < Iter; i++) {
-		Data = Filter(iluCurImage, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias );
-		if (!Data)
-			return IL_FALSE;
-		ifree(iluCurImage->Data);
-		iluCurImage->Data = Data;
+	// Combine the two passes
+	//	Optimization by Matt Denham
+	for (z = 0; z < Source->Depth; z++) {
+		for (y = 0; y < Source->Height; y++) {
+			for (x = 0; x < Source->Width; x++) {
+				if (!iIsFiltered(Source, RegionMask, x, y))
+					continue;
+				i = z * Source->SizeOfPlane + y * Source->Bps + x * Source->Bpp;
+				for (c = 0; c < Source->Bpp; c++, i++) {
+					if (HPass[i] == 0)
+						HPass[i] = VPass[i];
+					else if (VPass[i] != 0) {
+						Len = (ILfloat)sqrt((ILfloat)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+						HPass[i] = Len > 255 ? 255 : (ILubyte)Len;
+					}
+				}
+			}
+		}
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+	ifree(VPass);
+	ifree(RegionMask);
 
-	return IL_TRUE;
+	return iFilterDone(Source, HPass);
 }
 
 
-ILboolean ILAPIENTRY iluEmboss()
+ILboolean ILAPIENTRY iluEdgeDetectP()
 {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
+	return iEdgeDetect(filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias,
+						filter_v_prewitt, filter_v_prewitt_scale, filter_v_prewitt_bias);
+}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
 
-	return IL_TRUE;
+ILboolean ILAPIENTRY iluEdgeDetectS()
+{
+	return iEdgeDetect(filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias,
+						filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
 }
 
-/*ILboolean ILAPIENTRY iluEmboss()
-{
-	ILuint	x, y, c, i = 0;
-	ILubyte	*Data;
 
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
+ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
+{
+	return iFilterImage(filter_average, filter_average_scale, filter_average_bias, Iter, IL_FALSE);
+}
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
 
-	for (y = 0; y < iluCurImage->Height; y++, i += iluCurImage->Bps) {
-		for (x = 0; x < (ILint)iluCurImage->Bps - iluCurImage->Bpp; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				Data[i+x+c] = iluCurImage->Data[i+x+c] - iluCurImage->Data[i+iluCurImage->Bpp+c] + 128;
-			}
-		}
-		Data[i+x] = 128;
-	}
+ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
+{
+	return iFilterImage(filter_gaussian, filter_gaussian_scale, filter_gaussian_bias, Iter, IL_FALSE);
+}
 
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
 
-	return IL_TRUE;
-}*/
+ILboolean ILAPIENTRY iluEmboss()
+{
+	return iFilterImage(filter_emboss, filter_emboss_scale, filter_emboss_bias, 1, IL_TRUE);
+}
 
 
 ILboolean ILAPIENTRY iluEdgeDetectE()
 {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-
-	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterImage(filter_embossedge, filter_embossedge_scale, filter_embossedge_bias, 1, IL_FALSE);
 }
 
+
 ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 {
 	ILuint		i;
@@ -1150,6 +833,10 @@ ILboolean ILAPIENTRY iluAlienify(void)
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (iluCurImage->Bpc > 1) {  // Not supported yet.
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	Data = iluCurImage->Data;
 
 	iIdentity((ILfloat*)Mat);
@@ -1197,28 +884,21 @@ ILboolean ILAPIENTRY iluAlienify(void)
 
 
 
-void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
+void iIntExtImg(const ILubyte *Data1, ILubyte *Data2, ILuint Size, ILfloat a)
 {
 	ILuint	i;
-	ILint	d;
-	ILubyte	*Data1, *Data2;
-
-	Data1 = Image1->Data;
-	Data2 = Image2->Data;
+	ILfloat	d;
 
-	for (i = 0; i < Image2->SizeOfData; i++) {
-		d = (ILint)((1 - a) * *Data1 + a * *Data2);
+	for (i = 0; i < Size; i++) {
+		d = (1 - a) * Data1[i] + a * Data2[i];
 		// Limit a pixel value to the range [0, 255]
-		if (d < 0) 
+		if (d < 0)
 			d = 0;
 		else if (d > 255)
 			d = 255;
-		*Data2 = d;
-
-		Data1++;
-		Data2++;
+		Data2[i] = (ILubyte)d;
 	}
-			
+
 	return;
 }
 
@@ -1292,68 +972,46 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 // Blurs when Factor is in the range [0.0, 1.0].
 ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 {
-	ILimage	*Blur, *CurImage;  // iluBlur() changes iluCurImage
-	ILuint	i;
-	
-	CurImage = ilGetCurImage();
-	if (CurImage == NULL) {
+	ILimage		*Source;
+	ILubyte		*Blur, *Data, *RegionMask;
+	ILuint		i;
+
+	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Blur = ilNewImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Bpc);
-	if (Blur == NULL) {
-		return IL_FALSE;
-	}
-	ilCopyImageAttr(Blur, CurImage);
+	if (Iter == 0)
+		return IL_TRUE;
 
-	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
-	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	Source = iFilterSource();
+	if (Source == NULL)
+		return IL_FALSE;
 
-	for (i = 0; i < Iter; i++) {
-		iIntExtImg(Blur, CurImage, Factor);
+	RegionMask = iScanFill();
+	Blur = Filter(Source, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias, RegionMask, IL_TRUE);
+	ifree(RegionMask);
+	Data = Blur ? (ILubyte*)ialloc(Source->SizeOfData) : NULL;
+	if (Data != NULL) {
+		memcpy(Data, Source->Data, Source->SizeOfData);
+		for (i = 0; i < Iter; i++) {
+			iIntExtImg(Blur, Data, Source->SizeOfData, Factor);
+		}
 	}
+	ifree(Blur);
 
-	ilCloseImage(Blur);
-	ilSetCurImage(CurImage);
-
-	return IL_TRUE;
+	return iFilterDone(Source, Data);
 }
 
 
 ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias) {
-	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
-	
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
+	if (matrix == NULL || scale == 0) {
+		ilSetError(ILU_INVALID_PARAM);
 		return IL_FALSE;
 	}
-	
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
-	
-	Data = Filter(iluCurImage, matrix, scale, bias);
-	if (!Data)
-		return IL_FALSE;
-	ifree(iluCurImage->Data);
-	iluCurImage->Data = Data;
-	
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-	
-	return IL_TRUE;
+
+	return iFilterImage(matrix, scale, bias, 1, IL_FALSE);
 }
 
 
-- 
2.43.0


From c03eccbce5ecfc9866b26bc9626be03462f3ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 118/121] fix: iluWave turns rows of any width, channel size
 and plane [C30]

---
 DevIL/src-ILU/src/ilu_manip.cpp | 38 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 534debc..1e7002e 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -456,7 +456,7 @@ ILboolean ILAPIENTRY iluNegative()
 ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 {
 	ILint	Delta;
-	ILuint	y;
+	ILuint	y, z, Shift, PixSize;
 	ILubyte	*DataPtr, *TempBuff;
 
 	iluCurImage = ilGetCurImage();
@@ -465,28 +465,28 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	TempBuff = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	TempBuff = (ILubyte*)ialloc(iluCurImage->Bps);
 	if (TempBuff == NULL) {
 		return IL_FALSE;
 	}
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
 
-	for (y = 0; y < iluCurImage->Height; y++) {
-		Delta = (ILint)
-			(30 * sin((10 * Angle + y) * IL_DEGCONV) +
-			 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
-
-		DataPtr = iluCurImage->Data + y * iluCurImage->Bps;
-
-		if (Delta < 0) {
-			Delta = -Delta;
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * Delta);
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * Delta, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), TempBuff, iluCurImage->Bpp * Delta);
-		}
-		else if (Delta > 0) {
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), iluCurImage->Bpp * Delta);
-			memcpy(DataPtr + iluCurImage->Bpp * Delta, TempBuff, iluCurImage->Bpp * (iluCurImage->Width - Delta));
+	for (z = 0; z < iluCurImage->Depth; z++) {
+		for (y = 0; y < iluCurImage->Height; y++) {
+			Delta = (ILint)
+				(30 * sin((10 * Angle + y) * IL_DEGCONV) +
+				 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
+
+			DataPtr = iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps;
+
+			// Turns the row round by Delta pixels, which can be more than the row has.
+			Shift = (ILuint)abs(Delta) % iluCurImage->Width;
+			if (Delta > 0)
+				Shift = iluCurImage->Width - Shift;
+			Shift *= PixSize;
+			memcpy(TempBuff, DataPtr, Shift);
+			memmove(DataPtr, DataPtr + Shift, iluCurImage->Bps - Shift);
+			memcpy(DataPtr + iluCurImage->Bps - Shift, TempBuff, Shift);
 		}
 	}
 
-- 
2.43.0


From 2b97a08a2a8da3aeb5b02ad991b96a44379d5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 119/121] fix: iluEqualize works on the colours of a palette
 and on black pixels [C30]

---
 DevIL/src-ILU/src/ilu_manip.cpp | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 1e7002e..b0940b5 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -710,7 +710,7 @@ ILboolean ILAPIENTRY iluEqualize() {
 	ILint	Intensity;
 	ILfloat	Scale;
 	ILint	IntensityNew;
-	ILimage	*LumImage;
+	ILimage	*LumImage, *PalImage;
 	ILuint	NewColour[4];
 	ILubyte		*BytePtr;
 	ILushort	*ShortPtr;
@@ -731,8 +731,13 @@ ILboolean ILAPIENTRY iluEqualize() {
 	}
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		NumPixels = iluCurImage->Pal.PalSize / ilGetBppPal(iluCurImage->Pal.PalType);
+		// The colours of the palette are what is equalized.
 		Bpp = ilGetBppPal(iluCurImage->Pal.PalType);
+		NumPixels = Bpp ? iluCurImage->Pal.PalSize / Bpp : 0;
+		if (iluCurImage->Pal.Palette == NULL || NumPixels == 0) {
+			ilSetError(ILU_ILLEGAL_OPERATION);
+			return IL_FALSE;
+		}
 	} else {
 		NumPixels = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 		Bpp = iluCurImage->Bpp;
@@ -742,7 +747,18 @@ ILboolean ILAPIENTRY iluEqualize() {
 	imemclear(Histogram, 256 * sizeof(ILuint));
 	imemclear(SumHistm,  256 * sizeof(ILuint));
 
-	LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		PalImage = ilNewImage(NumPixels, 1, 1, (ILubyte)Bpp, 1);
+		if (PalImage == NULL)
+			return IL_FALSE;
+		PalImage->Format = ilGetPalBaseType(iluCurImage->Pal.PalType);
+		PalImage->Type = IL_UNSIGNED_BYTE;
+		memcpy(PalImage->Data, iluCurImage->Pal.Palette, NumPixels * Bpp);
+		LumImage = iConvertImage(PalImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+		ilCloseImage(PalImage);
+	}
+	else
+		LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
 	if (LumImage == NULL)
 		return IL_FALSE;
 	for (i = 0; i < NumPixels; i++) {
@@ -771,16 +787,16 @@ ILboolean ILAPIENTRY iluEqualize() {
 		IntensityNew = (ILint)SumHistm[Intensity];
 
 		// Find out by how much the intensity has been Scaled
-		Scale = (ILfloat)IntensityNew / (ILfloat)Intensity;
+		Scale = Intensity ? (ILfloat)IntensityNew / (ILfloat)Intensity : 0;
 
 		switch (iluCurImage->Bpc)
 		{
 			case 1:
 				// Calculate new pixel(s)
-				NewColour[0] = (ILuint)(BytePtr[i * iluCurImage->Bpp] * Scale);
+				NewColour[0] = (ILuint)(BytePtr[i * Bpp] * Scale);
 				if (Bpp >= 3) {
-					NewColour[1] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 1] * Scale);
-					NewColour[2] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 2] * Scale);
+					NewColour[1] = (ILuint)(BytePtr[i * Bpp + 1] * Scale);
+					NewColour[2] = (ILuint)(BytePtr[i * Bpp + 2] * Scale);
 				}
 
 				// Clamp values
@@ -794,10 +810,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 				}
 
 				// Store pixel(s)
-				BytePtr[i * iluCurImage->Bpp] = (ILubyte)NewColour[0];
+				BytePtr[i * Bpp] = (ILubyte)NewColour[0];
 				if (Bpp >= 3) {
-					BytePtr[i * iluCurImage->Bpp + 1]	= (ILubyte)NewColour[1];
-					BytePtr[i * iluCurImage->Bpp + 2]	= (ILubyte)NewColour[2];
+					BytePtr[i * Bpp + 1]	= (ILubyte)NewColour[1];
+					BytePtr[i * Bpp + 2]	= (ILubyte)NewColour[2];
 				}
 				break;
 
-- 
2.43.0


From ce5f0cda22a95f7ee8ecf8a8967ecfdda113642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 120/121] fix: 16-bit TGA and HDR loaders leave a consistent
 image and no memory behind when they fail [C18]

---
 DevIL/src-IL/src/il_hdr.cpp   | 4 +++-
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index a2ef537..11bcc14 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -226,8 +226,10 @@ ILboolean iLoadHdrInternal()
 
 	data = (ILfloat*)iCurImage->Data;
 	scanline = (ILubyte*)icalloc(Header.Width, 4);
-	if (scanline == NULL)
+	if (scanline == NULL) {
+		iUnCache();
 		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
 		if (!ReadScanline(scanline, Header.Width)) {
 			iUnCache();
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 0f51766..f6e9811 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -374,7 +374,8 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 			iCurImage->Format = IL_BGRA;
 			iCurImage->Type = IL_UNSIGNED_SHORT_1_5_5_5_REV;*/
 			
-			iCurImage->Format = IL_BGR;
+			// Two bytes per pixel until it is expanded to 24-bit below.
+			iCurImage->Format = IL_LUMINANCE_ALPHA;
 			
 			break;
 		case 3:
-- 
2.43.0


From 9ed0822227601239ee2f2eb57491ac9f33513779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:53 +0000
Subject: [PATCH 121/121] fix: loading a TEXTURE leaves the handle where it was
 and skips its header in memory too [C12]

---
 DevIL/src-IL/src/il_texture.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 27d0c7a..2ea2a4d 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -37,7 +37,7 @@ ILboolean ilLoadTexture(ILconst_string FileName)
 //! Reads an already-opened TEXTURE file
 ILboolean ilLoadTextureF(ILHANDLE File)
 {
-	ILuint		FirstPos;
+	ILuint		FirstPos, DdsPos;
 	ILboolean	bRet;
 	
 	iSetInputFile(File);
@@ -45,8 +45,10 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
 	iseek(48, IL_SEEK_CUR);
+	DdsPos = itell();
 	bRet = ilLoadDdsF(File);
-	iseek(FirstPos, IL_SEEK_SET);
+	// The DDS loader has made its own start the start of the file.
+	iseek((ILint)FirstPos - (ILint)DdsPos, IL_SEEK_SET);
 	
 	return bRet;
 }
@@ -55,11 +57,13 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a TEXTURE
 ILboolean ilLoadTextureL(const void *Lump, ILuint Size)
 {
-	iSetInputLump(Lump, Size);
+	if (Lump == NULL || Size < 48) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
-	iseek(48, IL_SEEK_CUR);
-	return ilLoadDdsL(Lump, Size);
+	return ilLoadDdsL((const ILubyte*)Lump + 48, Size - 48);
 }
 
 #endif//IL_NO_TEXTURE
-- 
2.43.0

