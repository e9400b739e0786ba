-------------------------------- MODULE ILConst --------------------------------
EXTENDS Integers
\* Enumeration values of the public API (il.h, ilu.h, ilut.h).
IL_FALSE == 0
IL_TRUE == 1
IL_COLOUR_INDEX == 6400
IL_COLOR_INDEX == 6400
IL_ALPHA == 6406
IL_RGB == 6407
IL_RGBA == 6408
IL_BGR == 32992
IL_BGRA == 32993
IL_LUMINANCE == 6409
IL_LUMINANCE_ALPHA == 6410
IL_BYTE == 5120
IL_UNSIGNED_BYTE == 5121
IL_SHORT == 5122
IL_UNSIGNED_SHORT == 5123
IL_INT == 5124
IL_UNSIGNED_INT == 5125
IL_FLOAT == 5126
IL_DOUBLE == 5130
IL_HALF == 5131
IL_VENDOR == 7936
IL_LOAD_EXT == 7937
IL_SAVE_EXT == 7938
IL_VERSION_1_8_0 == 1
IL_VERSION == 180
IL_ORIGIN_BIT == 1
IL_FILE_BIT == 2
IL_PAL_BIT == 4
IL_FORMAT_BIT == 8
IL_TYPE_BIT == 16
IL_COMPRESS_BIT == 32
IL_LOADFAIL_BIT == 64
IL_FORMAT_SPECIFIC_BIT == 128
IL_ALL_ATTRIB_BITS == 1048575
IL_PAL_NONE == 1024
IL_PAL_RGB24 == 1025
IL_PAL_RGB32 == 1026
IL_PAL_RGBA32 == 1027
IL_PAL_BGR24 == 1028
IL_PAL_BGR32 == 1029
IL_PAL_BGRA32 == 1030
IL_TYPE_UNKNOWN == 0
IL_BMP == 1056
IL_CUT == 1057
IL_DOOM == 1058
IL_DOOM_FLAT == 1059
IL_ICO == 1060
IL_JPG == 1061
IL_JFIF == 1061
IL_ILBM == 1062
IL_PCD == 1063
IL_PCX == 1064
IL_PIC == 1065
IL_PNG == 1066
IL_PNM == 1067
IL_SGI == 1068
IL_TGA == 1069
IL_TIF == 1070
IL_CHEAD == 1071
IL_RAW == 1072
IL_MDL == 1073
IL_WAL == 1074
IL_LIF == 1076
IL_MNG == 1077
IL_JNG == 1077
IL_GIF == 1078
IL_DDS == 1079
IL_DCX == 1080
IL_PSD == 1081
IL_EXIF == 1082
IL_PSP == 1083
IL_PIX == 1084
IL_PXR == 1085
IL_XPM == 1086
IL_HDR == 1087
IL_ICNS == 1088
IL_JP2 == 1089
IL_EXR == 1090
IL_WDP == 1091
IL_VTF == 1092
IL_WBMP == 1093
IL_SUN == 1094
IL_IFF == 1095
IL_TPL == 1096
IL_FITS == 1097
IL_DICOM == 1098
IL_IWI == 1099
IL_BLP == 1100
IL_FTX == 1101
IL_ROT == 1102
IL_TEXTURE == 1103
IL_DPX == 1104
IL_UTX == 1105
IL_MP3 == 1106
IL_KTX == 1107
IL_SCITEX == 1108
IL_JASC_PAL == 1141
IL_NO_ERROR == 0
IL_INVALID_ENUM == 1281
IL_OUT_OF_MEMORY == 1282
IL_FORMAT_NOT_SUPPORTED == 1283
IL_INTERNAL_ERROR == 1284
IL_INVALID_VALUE == 1285
IL_ILLEGAL_OPERATION == 1286
IL_ILLEGAL_FILE_VALUE == 1287
IL_INVALID_FILE_HEADER == 1288
IL_INVALID_PARAM == 1289
IL_COULD_NOT_OPEN_FILE == 1290
IL_INVALID_EXTENSION == 1291
IL_FILE_ALREADY_EXISTS == 1292
IL_OUT_FORMAT_SAME == 1293
IL_STACK_OVERFLOW == 1294
IL_STACK_UNDERFLOW == 1295
IL_INVALID_CONVERSION == 1296
IL_BAD_DIMENSIONS == 1297
IL_FILE_READ_ERROR == 1298
IL_FILE_WRITE_ERROR == 1298
IL_LIB_GIF_ERROR == 1505
IL_LIB_JPEG_ERROR == 1506
IL_LIB_PNG_ERROR == 1507
IL_LIB_TIFF_ERROR == 1508
IL_LIB_MNG_ERROR == 1509
IL_LIB_JP2_ERROR == 1510
IL_LIB_EXR_ERROR == 1511
IL_UNKNOWN_ERROR == 1535
IL_ORIGIN_SET == 1536
IL_ORIGIN_LOWER_LEFT == 1537
IL_ORIGIN_UPPER_LEFT == 1538
IL_ORIGIN_MODE == 1539
IL_FORMAT_SET == 1552
IL_FORMAT_MODE == 1553
IL_TYPE_SET == 1554
IL_TYPE_MODE == 1555
IL_FILE_OVERWRITE == 1568
IL_FILE_MODE == 1569
IL_CONV_PAL == 1584
IL_DEFAULT_ON_FAIL == 1586
IL_USE_KEY_COLOUR == 1589
IL_USE_KEY_COLOR == 1589
IL_BLIT_BLEND == 1590
IL_SAVE_INTERLACED == 1593
IL_INTERLACE_MODE == 1594
IL_QUANTIZATION_MODE == 1600
IL_WU_QUANT == 1601
IL_NEU_QUANT == 1602
IL_NEU_QUANT_SAMPLE == 1603
IL_MAX_QUANT_INDEXS == 1604
IL_MAX_QUANT_INDICES == 1604
IL_FASTEST == 1632
IL_LESS_MEM == 1633
IL_DONT_CARE == 1634
IL_MEM_SPEED_HINT == 1637
IL_USE_COMPRESSION == 1638
IL_NO_COMPRESSION == 1639
IL_COMPRESSION_HINT == 1640
IL_NVIDIA_COMPRESS == 1648
IL_SQUISH_COMPRESS == 1649
IL_SUB_NEXT == 1664
IL_SUB_MIPMAP == 1665
IL_SUB_LAYER == 1666
IL_COMPRESS_MODE == 1792
IL_COMPRESS_NONE == 1793
IL_COMPRESS_RLE == 1794
IL_COMPRESS_LZO == 1795
IL_COMPRESS_ZLIB == 1796
IL_TGA_CREATE_STAMP == 1808
IL_JPG_QUALITY == 1809
IL_PNG_INTERLACE == 1810
IL_TGA_RLE == 1811
IL_BMP_RLE == 1812
IL_SGI_RLE == 1813
IL_TGA_ID_STRING == 1815
IL_TGA_AUTHNAME_STRING == 1816
IL_TGA_AUTHCOMMENT_STRING == 1817
IL_PNG_AUTHNAME_STRING == 1818
IL_PNG_TITLE_STRING == 1819
IL_PNG_DESCRIPTION_STRING == 1820
IL_TIF_DESCRIPTION_STRING == 1821
IL_TIF_HOSTCOMPUTER_STRING == 1822
IL_TIF_DOCUMENTNAME_STRING == 1823
IL_TIF_AUTHNAME_STRING == 1824
IL_JPG_SAVE_FORMAT == 1825
IL_CHEAD_HEADER_STRING == 1826
IL_PCD_PICNUM == 1827
IL_PNG_ALPHA_INDEX == 1828
IL_JPG_PROGRESSIVE == 1829
IL_VTF_COMP == 1830
IL_DXTC_FORMAT == 1797
IL_DXT1 == 1798
IL_DXT2 == 1799
IL_DXT3 == 1800
IL_DXT4 == 1801
IL_DXT5 == 1802
IL_DXT_NO_COMP == 1803
IL_KEEP_DXTC_DATA == 1804
IL_DXTC_DATA_FORMAT == 1805
IL_3DC == 1806
IL_RXGB == 1807
IL_ATI1N == 1808
IL_DXT1A == 1809
IL_CUBEMAP_POSITIVEX == 1024
IL_CUBEMAP_NEGATIVEX == 2048
IL_CUBEMAP_POSITIVEY == 4096
IL_CUBEMAP_NEGATIVEY == 8192
IL_CUBEMAP_POSITIVEZ == 16384
IL_CUBEMAP_NEGATIVEZ == 32768
IL_SPHEREMAP == 65536
IL_VERSION_NUM == 3554
IL_IMAGE_WIDTH == 3556
IL_IMAGE_HEIGHT == 3557
IL_IMAGE_DEPTH == 3558
IL_IMAGE_SIZE_OF_DATA == 3559
IL_IMAGE_BPP == 3560
IL_IMAGE_BYTES_PER_PIXEL == 3560
IL_IMAGE_BITS_PER_PIXEL == 3561
IL_IMAGE_FORMAT == 3562
IL_IMAGE_TYPE == 3563
IL_PALETTE_TYPE == 3564
IL_PALETTE_SIZE == 3565
IL_PALETTE_BPP == 3566
IL_PALETTE_NUM_COLS == 3567
IL_PALETTE_BASE_TYPE == 3568
IL_NUM_FACES == 3553
IL_NUM_IMAGES == 3569
IL_NUM_MIPMAPS == 3570
IL_NUM_LAYERS == 3571
IL_ACTIVE_IMAGE == 3572
IL_ACTIVE_MIPMAP == 3573
IL_ACTIVE_LAYER == 3574
IL_ACTIVE_FACE == 3584
IL_CUR_IMAGE == 3575
IL_IMAGE_DURATION == 3576
IL_IMAGE_PLANESIZE == 3577
IL_IMAGE_BPC == 3578
IL_IMAGE_OFFX == 3579
IL_IMAGE_OFFY == 3580
IL_IMAGE_CUBEFLAGS == 3581
IL_IMAGE_ORIGIN == 3582
IL_IMAGE_CHANNELS == 3583
IL_SEEK_SET == 0
IL_SEEK_CUR == 1
IL_SEEK_END == 2
IL_EOF == 0-1
ILU_VERSION_1_8_0 == 1
ILU_VERSION == 180
ILU_FILTER == 9728
ILU_NEAREST == 9729
ILU_LINEAR == 9730
ILU_BILINEAR == 9731
ILU_SCALE_BOX == 9732
ILU_SCALE_TRIANGLE == 9733
ILU_SCALE_BELL == 9734
ILU_SCALE_BSPLINE == 9735
ILU_SCALE_LANCZOS3 == 9736
ILU_SCALE_MITCHELL == 9737
ILU_INVALID_ENUM == 1281
ILU_OUT_OF_MEMORY == 1282
ILU_INTERNAL_ERROR == 1284
ILU_INVALID_VALUE == 1285
ILU_ILLEGAL_OPERATION == 1286
ILU_INVALID_PARAM == 1289
ILU_PLACEMENT == 1792
ILU_LOWER_LEFT == 1793
ILU_LOWER_RIGHT == 1794
ILU_UPPER_LEFT == 1795
ILU_UPPER_RIGHT == 1796
ILU_CENTER == 1797
ILU_CONVOLUTION_MATRIX == 1808
ILU_ENGLISH == 2048
ILU_ARABIC == 2049
ILU_DUTCH == 2050
ILU_JAPANESE == 2051
ILU_SPANISH == 2052
ILU_GERMAN == 2053
ILU_FRENCH == 2054
ILU_ITALIAN == 2055
ILU_FILTER_BLUR == 2051
ILU_FILTER_GAUSSIAN_5X5 == 2053
ILU_FILTER_EMBOSS1 == 2055
ILU_FILTER_EMBOSS2 == 2056
ILU_FILTER_LAPLACIAN1 == 2058
ILU_FILTER_LAPLACIAN2 == 2059
ILU_FILTER_LAPLACIAN3 == 2060
ILU_FILTER_LAPLACIAN4 == 2061
ILU_FILTER_SHARPEN1 == 2062
ILU_FILTER_SHARPEN2 == 2063
ILU_FILTER_SHARPEN3 == 2064
ILUT_VERSION_1_8_0 == 1
ILUT_VERSION == 180
ILUT_OPENGL_BIT == 1
ILUT_D3D_BIT == 2
ILUT_ALL_ATTRIB_BITS == 1048575
ILUT_INVALID_ENUM == 1281
ILUT_OUT_OF_MEMORY == 1282
ILUT_INVALID_VALUE == 1285
ILUT_ILLEGAL_OPERATION == 1286
ILUT_INVALID_PARAM == 1289
ILUT_COULD_NOT_OPEN_FILE == 1290
ILUT_STACK_OVERFLOW == 1294
ILUT_STACK_UNDERFLOW == 1295
ILUT_BAD_DIMENSIONS == 1297
ILUT_NOT_SUPPORTED == 1360
ILUT_PALETTE_MODE == 1536
ILUT_OPENGL_CONV == 1552
ILUT_D3D_MIPLEVELS == 1568
ILUT_MAXTEX_WIDTH == 1584
ILUT_MAXTEX_HEIGHT == 1585
ILUT_MAXTEX_DEPTH == 1586
ILUT_GL_USE_S3TC == 1588
ILUT_D3D_USE_DXTC == 1588
ILUT_GL_GEN_S3TC == 1589
ILUT_D3D_GEN_DXTC == 1589
ILUT_S3TC_FORMAT == 1797
ILUT_DXTC_FORMAT == 1797
ILUT_D3D_POOL == 1798
ILUT_D3D_ALPHA_KEY_COLOR == 1799
ILUT_D3D_ALPHA_KEY_COLOUR == 1799
ILUT_FORCE_INTEGER_FORMAT == 1590
ILUT_GL_AUTODETECT_TEXTURE_TARGET == 2055
ILUT_OPENGL == 0
ILUT_ALLEGRO == 1
ILUT_WIN32 == 2
ILUT_DIRECT3D8 == 3
ILUT_DIRECT3D9 == 4
ILUT_X11 == 5
ILUT_DIRECT3D10 == 6
================================================================================
