#!/usr/bin/env python3
"""Writes properties.jsonl.  Text only; kept as a script so that the JSON stays well formed."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if obs: a["observe_at"] = [obs]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "DevIL/src-IL/src/"
U = "DevIL/src-ILU/src/"
p("C01", "Image names are fresh, stay valid until deleted, and never alias",
  "A generated image name is never the default image's name nor one that is already in use, it stays in use until it is deleted, and deleting it frees it (deleting the default image, or an unused name, affects no image). "
  "Binding an unused name brings that image into existence as a fresh 1x1x1 image, and binding a name always makes exactly that image current. "
  "Deleting the image that is current makes the default image current.",
  ["histories"], "every history of generate / bind / delete / clone / is-image calls, in any order and with any names",
  "Tests create one or two images and never reuse, double-delete or re-bind deleted names; freshness is a statement over all histories.",
  [S+"il_stack.cpp", S+"il_devil.cpp"],
  [("free-name list", S+"il_stack.cpp: ilGenImages / ilDeleteImages"), ("stack growth", S+"il_stack.cpp: iEnlargeStack / ilBindImage")],
  [("ImageStack", "name to image table", S+"il_stack.cpp"), ("FreeNames", "names available for reuse", S+"il_stack.cpp")],
  "ilGenImages, ilBindImage, ilIsImage, ilGetInteger(IL_CUR_IMAGE)")
p("C02", "Operations touch only the current image; copies and clones are deep",
  "An operation on the current image never changes the pixels, palette, size, metadata or sub-images of any image with another name. "
  "After copying or cloning an image the two are equal in pixels, palette and metadata (sub-images are not copied), and later changes to or deletion of either leave the other untouched. "
  "Deleting all images releases every block of memory that they held.",
  ["histories", "inputs"], "every history of image operations over several named images, checked on the full contents of all of them after every step",
  "Existing tests hold one image at a time, so aliasing, shared palettes and leaks between images cannot show.",
  [S+"il_devil.cpp", S+"il_stack.cpp", S+"il_manip.cpp"],
  [("deep copy", S+"il_devil.cpp: ilCopyImageAttr / ilCopyImage_ / ilCloneCurImage"), ("close", S+"il_stack.cpp: ilCloseImage")])
p("C03", "Sub-image navigation selects the n-th image, mipmap, layer or face",
  "Activating image, mipmap, layer or face n selects exactly the n-th element of that list of the currently selected image (0 being that image itself), or fails with an error and leaves the selection unchanged when there are fewer. "
  "The reported counts are the lengths of those lists, creating n sub-images makes the chosen list of the selected image exactly n fresh elements long, and binding an image name again returns to its base image.",
  ["histories"], "every history of create-sub-image / activate / bind / delete calls",
  "Tests activate at most one sub-image of one loaded file; the selection is a state machine over histories.",
  [S+"il_stack.cpp", S+"il_states.cpp"],
  [("activate", S+"il_stack.cpp: ilActiveImage / ilActiveMipmap / ilActiveLayer / ilActiveFace"), ("create", S+"il_stack.cpp: ilCreateSubImage"), ("counts", S+"il_states.cpp: iGetIntegervImage")])
p("C04", "Image geometry, format and type always agree with the stored bytes",
  "At all times every image has a buffer of exactly width x height x depth x channels x bytes-per-channel bytes, bytes-per-channel is what its type says, channels what its format says (unless the caller declared a format and a channel count that disagree), and row and plane sizes follow. "
  "Every query of a property of the current image reports that image's actual value. "
  "A call that is rejected leaves the image as it was.",
  ["histories", "inputs"], "every history of calls that create, resize, convert, register attributes of or edit an image, with valid and invalid arguments",
  "Tests check width and height of a few conversions; consistency must hold after every call on every argument combination.",
  [S+"il_devil.cpp", S+"il_states.cpp", S+"il_register.cpp"],
  [("creation", S+"il_devil.cpp: ilTexImage_ / ilTexSubImage_"), ("query", S+"il_states.cpp: iGetIntegervImage")])
p("C05", "Pixel blocks written and read land on exactly the addressed pixels",
  "Writing a block of pixels at an offset changes exactly the pixels of the block that lie inside the image, to the given values converted to the image's format and type, and changes nothing else. "
  "Reading a block returns exactly the addressed pixels in the requested format and type, leaves the image unchanged and never writes outside the caller's buffer. "
  "Clearing sets every pixel of the image to the clear colour and replacing all data stores exactly the given bytes.",
  ["inputs", "histories"], "all block positions and sizes (inside, partly outside, negative, 1 to 3 dimensions), formats, types and origins",
  "No test calls these functions on partially covered blocks; clipping arithmetic is quantified over all offsets and extents.",
  [S+"il_manip.cpp", S+"il_devil.cpp"],
  [("region write", S+"il_manip.cpp: ilSetPixels1D/2D/3D"), ("region read", S+"il_manip.cpp: ilCopyPixels1D/2D/3D"), ("clear", S+"il_devil.cpp: ilClearImage_")])
p("C06", "Blitting and overlaying copy exactly the clipped source rectangle",
  "Blitting copies exactly those source pixels whose destination lies inside the current image, to destination offset plus source-relative position, converted to the destination's format; all other destination pixels and the whole source image stay as they were. "
  "With blending on and a source that has alpha, each channel is the alpha-weighted mix of source and destination; with blending off, or no alpha, it is the source value.",
  ["inputs", "histories"], "all source/destination offsets (negative and beyond the edges), extents, formats, origins and the blend switch",
  "No test blits; clipping on every side and origin mirroring are quantified over all offsets.",
  [S+"il_devil.cpp"], [("blit", S+"il_devil.cpp: ilBlit"), ("overlay", S+"il_devil.cpp: ilOverlayImage")])
p("C07", "Format and type conversion preserves every pixel's meaning",
  "Converting an image between formats and the eight channel types keeps width, height, depth, origin and every sub-image, and turns each pixel into the nearest representation of the same colour: channels are moved by meaning, missing alpha is opaque, added or dropped channels do not disturb the others, widening is exact and narrowing keeps the most significant bits. "
  "Lossless conversions undo each other, and a conversion that is not possible is reported and leaves the image unchanged.",
  ["inputs"], "every source and destination format and type, all channel values, all sizes, with and without sub-images",
  "Tests convert a handful of images and compare few pixels; there are over two thousand format/type pairs.",
  [S+"il_convert.cpp", S+"il_convbuff.cpp", S+"il_fastconv.cpp"],
  [("conversion", S+"il_convbuff.cpp: ilConvertBuffer / iSwitchTypes"), ("image conversion", S+"il_convert.cpp: ilConvertImage / iConvertImage")])
p("C08", "Palette changes and palette conversion keep every pixel's colour",
  "Converting an image from colour-index gives each pixel the colour its palette entry had, and converting the palette between layouts keeps every entry's colour (alpha opaque when it is new). "
  "Registering a palette makes exactly the given entries the image's palette, and palette queries report its type, size, entry width and column count. "
  "Saving a palette to a file and loading it again yields the same entries.",
  ["inputs", "histories"], "all palette layouts and sizes, index values, and orders of registration and conversion",
  "Tests never inspect palettes.",
  [S+"il_pal.cpp", S+"il_convert.cpp", S+"il_register.cpp"],
  [("palette conversion", S+"il_pal.cpp: iConvertPal"), ("index conversion", S+"il_convert.cpp: iConvertPalette"), ("register", S+"il_register.cpp: ilRegisterPal")])
p("C09", "Settings hold the last accepted value; bad values change nothing",
  "Every setting, whichever function sets it, reads back the last value that was accepted for it, starts from its documented default, and is affected by no other setting's calls. "
  "A value or name outside the documented set raises an error and changes no setting. "
  "Enabling and disabling flip exactly the named switch, and its enabled and disabled queries are always opposite.",
  ["histories"], "every history of set / enable / disable / function / hint / string calls with valid and invalid values",
  "Tests do not read settings back; independence of about forty settings is a statement over pairs and histories.",
  [S+"il_states.cpp"], [("set", S+"il_states.cpp: ilSetInteger / ilEnable / ilOriginFunc ..."), ("get", S+"il_states.cpp: iGetIntegervImage / ilIsEnabled")])
p("C10", "Pushing attributes keeps exactly the selected groups; popping restores all",
  "Popping attributes gives every setting the value it had at the matching push. "
  "Pushing keeps the current values of the settings in the selected groups and gives all other settings their defaults; pushes nest to the documented depth, and overflow and underflow are reported as errors and change nothing.",
  ["histories"], "every nesting of pushes with any group mask, pops and setting changes",
  "No test pushes attributes; correctness is over histories of nested pushes and masks.",
  [S+"il_states.cpp"], [("push/pop", S+"il_states.cpp: ilPushAttrib / ilPopAttrib")],
  [("ilStates", "stack of saved settings", S+"il_states.cpp")])
p("C11", "Errors are reported once each, newest first, bounded, never invented",
  "Each call rejected for a bad argument or a missing image makes at least one error retrievable, errors are returned once each with the most recent first, and after they are drained the no-error value is returned. "
  "When more errors occur than can be held, the oldest are dropped and the newest kept in order. "
  "A call that succeeds adds no error.",
  ["histories"], "every history of failing and succeeding calls and error retrievals, including overflow of the error record",
  "Tests look at one error at most; order, overflow and absence are statements over histories.",
  [S+"il_error.cpp"], [("error stack", S+"il_error.cpp: ilSetError / ilGetError")])
p("C12", "An image loads the same from file, handle, memory or user callbacks",
  "Loading the same bytes by name, through an open handle positioned anywhere, from memory, or through user-supplied read functions gives the same result and the same image. "
  "A handle supplied by the caller is not closed, and the caller's memory is not modified. "
  "Saving likewise produces the same bytes through every kind of destination, starting at the current position of a handle and leaving what precedes it intact.",
  ["inputs", "configurations"], "every supported format, every start offset, every source and destination kind",
  "Tests load by file name from disk only.",
  [S+"il_files.cpp", S+"il_io.cpp"], [("source switch", S+"il_files.cpp: iSetInputFile / iSetInputLump"), ("read/write callbacks", S+"il_files.cpp: ilSetRead / ilSetWrite")])
p("C13", "Every file opened is closed exactly once, even under I/O faults",
  "Every file the library opens for a call is closed exactly once before that call returns, on success and on every failure, and it is never used after it is closed. "
  "Handles opened by the caller stay open. A read or write that fails makes the call fail, or yields a well-formed image; it never crashes, hangs or corrupts other images, and a save reports success only when everything was written.",
  ["fault_sequences", "inputs"], "an open, read or write failure at every possible point of every load, save and detect call, in every format that is exercised",
  "Tests never inject I/O faults.",
  [S+"il_io.cpp", S+"il_files.cpp"], [("open/close pairing", S+"il_io.cpp: ilLoad / ilSave")])
p("C14", "Saving in a lossless format and loading back gives the same image",
  "Saving an image in a lossless format and loading it back yields the same dimensions and, position for position, the same pixel colours (up to the channel layouts the format can store), whatever the origin of the image. "
  "Saving does not change the image being saved.",
  ["inputs", "configurations"], "all pixel contents, sizes (odd widths, 1-pixel, tall, wide), source formats, types and origins, run-length and interlace switches, for each lossless format",
  "Tests save and reload a few fixed pictures; row padding, run packing and origin depend on the content and size.",
  [S+"il_bmp.cpp", S+"il_targa.cpp", S+"il_png.cpp", S+"il_sgi.cpp", S+"il_pcx.cpp", S+"il_pnm.cpp", S+"il_tiff.cpp", S+"il_psd.cpp", S+"il_dds-save.cpp", S+"il_rle.cpp", S+"il_raw.cpp"],
  [("savers and loaders", "one file per format")])
p("C15", "Saves report their true size, respect limits and never overwrite unasked",
  "A save into memory writes exactly the number of bytes that the size query announced, the same bytes a file would get, and never beyond the given capacity: when the capacity is too small the save fails. "
  "With the default file functions, saving to an existing file leaves it untouched and fails unless overwriting is enabled. "
  "A save in an unknown or unsupported type, or of no image, fails with an error and creates nothing.",
  ["inputs", "histories"], "every savable format, image, capacity and overwrite setting",
  "Tests never save to memory with a tight capacity or onto existing files.",
  [S+"il_io.cpp", S+"il_files.cpp", S+"il_size.cpp"], [("size", S+"il_size.cpp / il_io.cpp: ilSaveL"), ("lump write", S+"il_files.cpp: iWriteLump / iPutcLump")])
p("C16", "Type detection by name and by content agree with the actual type",
  "The type derived from a file name depends only on its extension, regardless of letter case and directory part, and is the documented one. "
  "A file written in a format with a signature is recognised as that format by name, handle and memory alike, validity checks accept it only as that format, and detection never moves a handle's position. "
  "Content that is no known image is recognised as nothing.",
  ["inputs"], "all file names and extensions, all savable formats with a signature, arbitrary other content",
  "Tests check two or three extensions.",
  [S+"il_utility.cpp", S+"il_io.cpp"], [("extension table", S+"il_utility.cpp: ilTypeFromExt"), ("signature checks", S+"il_io.cpp: ilDetermineTypeF")])
p("C17", "Damaged or truncated files are handled without harm",
  "Loading a damaged or truncated file, of any format and from any kind of source, either fails and reports it or gives a well-formed image; it never crashes, reads or writes outside its buffers, or runs on forever. "
  "It leaves every other image untouched, and a later load of an intact file works as if the damaged one had not been tried.",
  ["inputs"], "every truncation point and byte corruption of valid files of each format",
  "Tests load intact files only.",
  [S+"il_io.cpp", S+"il_files.cpp", S+"il_bmp.cpp", S+"il_targa.cpp", S+"il_png.cpp", S+"il_pcx.cpp", S+"il_sgi.cpp", S+"il_pnm.cpp"],
  [("header validation", "iIsValid*/iCheck* of each format")])
p("C18", "Running out of memory fails the call, not the program",
  "When an allocation fails anywhere inside a call, the call either still has its usual effect or reports failure with an error, nothing is accessed out of bounds, and all other images keep their contents. "
  "The current image may lose its contents but can be given new ones or be deleted as usual; later calls work normally and deleting all images still releases all memory.",
  ["fault_sequences"], "an allocation failure at every allocation of every exercised call, single and persistent",
  "Tests never make an allocation fail.",
  [S+"il_alloc.cpp", S+"il_devil.cpp", S+"il_manip.cpp", S+"il_convert.cpp"], [("allocation checks", "every ialloc/icalloc call site")])
p("C19", "Registered handlers are used exactly for their extension and until removed",
  "A handler registered for an extension is used when, and only when, a file with that extension (in any letter case) is loaded by name, before any built-in one, or saved by name when there is no built-in one; its result decides the outcome and a failure is reported with its error code. "
  "Registering an extension that is taken keeps the first one; removing one disables exactly that one and fails when there is none.",
  ["histories"], "every history of register / remove / load / save calls over several extensions",
  "No test registers handlers.",
  [S+"il_register.cpp"], [("handler list", S+"il_register.cpp: ilRegisterLoad / ilRemoveLoad / iRegisterLoad")])
p("C20", "The normalise-on-load settings apply to every image and only when on",
  "When the corresponding setting is on, every loaded image arrives with the requested origin, format, channel type or expanded palette, holding the same colours at the same places as without the setting; when all are off it arrives as stored.",
  ["inputs", "configurations"], "all combinations of the settings, all loadable formats used, all images",
  "Tests load with one setting at most.",
  [S+"il_internal.cpp", S+"il_io.cpp"], [("post-processing", S+"il_internal.cpp: ilFixImage / ilFixCur")])
p("C21", "Geometric edits move every pixel to its exact place",
  "Flipping, mirroring, cropping, enlarging the canvas and turning by quarter turns yield exactly the image in which each pixel's value is that of the pixel it came from, with the new dimensions (and the clear colour where there is no source pixel). "
  "They work alike for every format, channel size and depth; flipping or mirroring twice is the identity; a crop outside the image is refused.",
  ["inputs"], "all sizes (1-pixel, odd, even, several planes), channel types, formats, offsets and origins",
  "Tests flip and scale one picture.",
  [U+"ilu_manip.cpp", U+"ilu_internal.cpp", U+"ilu_rotate.cpp", S+"il_internal.cpp"], [("flip/mirror", U+"ilu_manip.cpp / "+U+"ilu_mirror.cpp"), ("crop", U+"ilu_manip.cpp: iluCrop2D/3D"), ("canvas", U+"ilu_manip.cpp: iluEnlargeCanvas")])
p("C22", "Per-pixel edits change each pixel by its own rule, all of them, nothing else",
  "Negating, inverting alpha, swapping colour channels, replacing a colour, scaling colours or alpha and gamma or contrast changes apply the same documented rule to every pixel of the image and to nothing else, with results clamped to the channel range. "
  "Negating, swapping and inverting alpha twice restores the image. "
  "An active region limits an edit to the pixels inside it.",
  ["inputs"], "all pixel values, formats, channel types, sizes and region polygons",
  "Tests run a few filters and do not inspect the pixels.",
  [U+"ilu_manip.cpp", U+"ilu_filter.cpp", U+"ilu_region.cpp"], [("filters", U+"ilu_manip.cpp"), ("region mask", U+"ilu_region.cpp: iScanFill")])
p("C23", "Scaling and mipmap building give the requested chain of sizes",
  "Scaling yields exactly the requested dimensions in the same format and type, scaling to the same size changes no pixel and an image of one colour stays that colour under every filter. "
  "Building mipmaps yields a chain in which each level halves each dimension, rounding down and at least one, until 1x1x1, with the base image unchanged and any earlier chain replaced. "
  "Nearest-neighbour scaling only produces colours present in the source.",
  ["inputs"], "all source and destination sizes, formats, filters",
  "Tests scale one picture to one size.",
  [U+"ilu_scale.cpp", U+"ilu_scale2d.cpp", U+"ilu_mipmap.cpp"], [("scaling", U+"ilu_scale.cpp: iluScale_"), ("mipmaps", U+"ilu_mipmap.cpp: iluBuildMipmaps / iBuildMipmaps")])
p("C24", "Start and shutdown return the library to a clean, reusable state",
  "After shutting down and starting again the library behaves as at first use: no images but the default one and the first, default settings and colours, empty attribute stack, no pending error and no registered handler. "
  "Shutting down releases all memory held by images and names, and may be called at any time after start; starting twice is harmless.",
  ["histories"], "every history of calls followed by shutdown and start, repeated",
  "Tests start once per process and never look at what remains.",
  [S+"il_internal.cpp", S+"il_stack.cpp", S+"il_states.cpp"], [("init/shutdown", S+"il_internal.cpp: ilInit, "+S+"il_stack.cpp: ilShutDown")])
p("C25", "The image-utility and toolkit layers keep their own settings consistently",
  "The filter and placement settings of the image-utility layer and the switches and values of the toolkit layer read back the last accepted value, start from their defaults, reject values outside the documented set without change, and the toolkit's attribute stack restores exactly the pushed groups. "
  "Every error code has a description in each supported language, and version and vendor queries report the library's.",
  ["histories"], "every history of parameter, switch, push, pop and query calls with valid and invalid values",
  "No test reads these settings.",
  [U+"ilu_states.cpp", U+"ilu_error.cpp", "DevIL/src-ILUT/src/ilut_states.cpp"], [("settings", U+"ilu_states.cpp, ilut_states.cpp")])
p("C26", "Alpha extraction and replacement touch only the alpha channel",
  "Reading the alpha of an image returns, pixel by pixel, exactly its alpha values (opaque when it has none) in the requested type. "
  "Setting alpha gives every pixel the requested opacity and leaves its colour as it was, adding an alpha channel when there is none (colour-indexed images are left out).",
  ["inputs"], "all formats, channel types, sizes and alpha values",
  "No test touches alpha.",
  [S+"il_manip.cpp", S+"il_convert.cpp"], [("alpha", S+"il_manip.cpp: ilGetAlpha / ilSetAlpha / ilModAlpha")])
p("C27", "Block-compressed data is sized, bounded and decoded by the block rule",
  "Compressed texture data for an image has exactly the number of bytes that its dimensions in 4x4 blocks imply, a size query announces it, and nothing is written beyond a smaller buffer. "
  "Decompressing blocks yields exactly the colours that the block encoding defines, pixel for pixel, and compressing an image whose blocks are uniform and representable loses nothing.",
  ["inputs"], "all block contents, image sizes including those not divisible by four, and the supported block formats",
  "Tests never compress or decompress block data.",
  [S+"il_dds.cpp", S+"il_dds-save.cpp", S+"il_nvidia.cpp", S+"il_squish.cpp"], [("decode", S+"il_dds.cpp: DecompressDXT*"), ("encode", S+"il_dds-save.cpp: ilGetDXTCData / Compress")])
p("C28", "Raw pixel data files hold exactly the pixels",
  "Saving the current image as raw data writes exactly its bytes, and loading raw data with given dimensions and channels gives exactly those bytes as an image of that geometry, from file or memory. "
  "Data that is too short for the given dimensions, or a geometry that cannot be represented, is refused without harm to the current image.",
  ["inputs"], "all geometries and contents, lengths shorter and longer than needed",
  "No test uses raw data.",
  [S+"il_rawdata.cpp", S+"il_raw.cpp"], [("raw data", S+"il_rawdata.cpp: ilLoadData / ilSaveData")])
p("C29", "Files written by other programs load as exactly the pixels they describe",
  "For the uncompressed and run-length-coded variants of the simple formats (DDS, TGA, BMP, PCX, SGI, PNM, PSD, Sun raster, WBMP, GIF, PNG, TIFF, Alias PIX, PXR, FTX, WAL, CUT, Softimage PIC and ICO) the meaning of a file is fixed by its published layout: dimensions, bit depth, palette, byte order, padding, row order and runs. "
  "Loading a well-formed file of these formats, whatever program wrote it and whether it comes from a name, a handle or memory, succeeds and gives an image with exactly the size and the pixels (and palette colours) that the file describes.",
  ["inputs"], "all well-formed files of the listed formats: every depth, palette size, run partition, padding, interleaving and row order the layout allows",
  "The library's tests only load files that the library itself wrote, so an error made alike when reading and writing, and every layout its own writer never produces, goes unseen.",
  [S+"il_dds.cpp", S+"il_targa.cpp", S+"il_bmp.cpp", S+"il_pcx.cpp", S+"il_sgi.cpp", S+"il_pnm.cpp", S+"il_psd.cpp", S+"il_sun.cpp", S+"il_wbmp.cpp", S+"il_gif.cpp", S+"il_png.cpp", S+"il_tiff.cpp", S+"il_pix.cpp", S+"il_pxr.cpp", S+"il_ftx.cpp", S+"il_wal.cpp", S+"il_cut.cpp", S+"il_pic.cpp", S+"il_icon.cpp"],
  [("bit masks", S+"il_dds.cpp: DecompressARGB / GetBitsFromMask"), ("runs", S+"il_targa.cpp, il_bmp.cpp, il_pcx.cpp, il_sgi.cpp, il_psd.cpp, il_sun.cpp"), ("LZW", S+"il_gif.cpp: get_next_code")])
p("C30", "Filters compute each pixel from its neighbourhood and reach nothing else",
  "A filter (blur, sharpen, emboss, edge detection, user convolution) gives every pixel, except the four corners, the weighted sum of itself and its eight neighbours in the same plane, divided and offset as the filter says and cut to the range of a byte; beyond an edge the edge repeats (embossing and sharpening keep the neighbours with which the documentation's reference images were made: in the last column rows go on at their start, in the others but the first the last weight goes to the lower left). Pixelizing gives each block its average, equalizing maps brightness to the share of darker pixels, waves only turn rows round, sepia and alien colours follow their fixed mixtures, noise stays within its bound. "
  "This holds for images of every size down to a single pixel, every depth, format and type (through conversion to bytes and back); pixels outside of the active region, dimensions, format, type, origin and all other images stay as they are, and no filter reads or writes outside of the image.",
  ["inputs"], "all image sizes, formats, types and contents, regions, and filter arguments, alone and one after the other",
  "The tests compare some filters on one 8-bit colour picture with reference images, within a tolerance that hides wrong edges.",
  [U+"ilu_filter.cpp", U+"ilu_noise.cpp", U+"ilu_manip.cpp", U+"ilu_region.cpp"], [("neighbourhood", U+"ilu_filter.cpp: Filter"), ("blocks", U+"ilu_filter.cpp: iluPixelize"), ("rows", U+"ilu_manip.cpp: iluWave"), ("histogram", U+"ilu_manip.cpp: iluEqualize")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
