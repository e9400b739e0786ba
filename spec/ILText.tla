-------------------------------- MODULE ILText --------------------------------
(* The description of every error code in every language (bytes outside ASCII *)
(* are written ~hh): no error, 0x501..0x512, 0x5E1..0x5E7, unknown error.      *)
EXTENDS ILConst, Naturals, Sequences, TLC
ErrorCodes == <<0>> \o [i \in 1..18 |-> 1280 + i] \o [i \in 1..7 |-> 1504 + i] \o <<IL_UNKNOWN_ERROR>>
Languages == {ILU_ENGLISH, ILU_ARABIC, ILU_DUTCH, ILU_JAPANESE, ILU_SPANISH, ILU_GERMAN, ILU_FRENCH, ILU_ITALIAN}
Texts == (
    ILU_ENGLISH :> << "no error",
        "invalid enumerant",
        "out of memory",
        "format not supported yet",
        "internal error",
        "invalid value",
        "illegal operation",
        "illegal file value",
        "invalid file header",
        "invalid parameter",
        "could not open file",
        "invalid extension",
        "file already exists",
        "out format equivalent",
        "stack overflow",
        "stack underflow",
        "invalid conversion",
        "bad dimensions",
        "file read error",
        "gif library error",
        "jpeg library error",
        "png library error",
        "tiff library error",
        "mng library error",
        "jp2 library error",
        "exr library error",
        "unknown error" >> @@
    ILU_ARABIC :> << "~d9~84~d8~a7~d9~8a~d9~88~d8~ac~d8~af ~d8~ae~d8~b7~d8~a3",
        "enumerant ~d8~ae~d8~a7~d8~b7~d8~a6",
        "~d8~ae~d8~a7~d8~b1~d8~ac ~d8~ad~d8~af~d9~88~d8~af ~d8~a7~d9~84~d8~b0~d8~a7~d9~83~d8~b1~d8~a9",
        "~d9~86~d8~b3~d9~82 ~d8~a7~d9~84~d8~b5~d9~88~d8~b1~d8~a9 ~d8~ba~d9~8a~d8~b1 ~d9~85~d8~af~d8~b9~d9~88~d9~85",
        "~d8~ae~d8~b7~d8~a3 ~d8~af~d8~a7~d8~ae~d9~84~d9~8a",
        "~d9~82~d9~8a~d9~85~d8~a9 ~d8~ae~d8~a7~d8~b7~d8~a6~d8~a9",
        "~d8~b9~d9~85~d9~84~d9~8a~d8~a9 ~d8~ba~d9~8a~d8~b1 ~d8~b4~d8~b1~d8~b9~d9~8a~d8~a9",
        "~d8~b1~d9~82~d9~85 (~d9~82~d9~8a~d9~85~d8~a9) ~d8~a7~d9~84~d9~85~d9~84~d9~81 ~d8~ba~d9~8a~d8~b1 ~d8~b4~d8~b1~d8~b9~d9~8a",
        "~d8~b1~d8~a3~d8~b3 ~d8~a7~d9~84~d9~85~d9~84~d9~81 ~d8~ae~d8~a7~d8~b7~d8~a6",
        "~d8~a7~d9~84~d8~a8~d8~a7~d8~b1~d9~85~d8~aa~d8~b1(~d8~a7~d9~84~d9~85~d8~b9~d8~a7~d9~85~d9~84) ~d8~ae~d8~a7~d8~b7~d8~a6",
        "~d9~84~d8~a7~d9~8a~d9~85~d9~83~d9~86 ~d9~81~d8~aa~d8~ad ~d8~a7~d9~84~d9~85~d9~84~d9~81",
        "~d8~a7~d9~85~d8~aa~d8~af~d8~a7~d8~af ~d8~a7~d9~84~d9~85~d9~84~d9~81 ~d8~ae~d8~a7~d8~b7~d8~a6",
        "~d8~a7~d9~84~d9~85~d9~84~d9~81 ~d9~85~d9~88~d8~ac~d9~88~d8~af",
        "out format equivalent",
        "~d8~a7~d9~84~d9~85~d9~83~d8~af~d8~b3(~d8~a7~d9~84~d8~b3~d8~aa~d8~a7~d9~83) ~d9~85~d9~85~d8~aa~d9~84~d8~a6",
        "~d8~a7~d9~84~d9~85~d9~83~d8~af~d8~b3 (~d8~a7~d9~84~d8~b3~d8~aa~d8~a7~d9~83) ~d9~81~d8~a7~d8~b1~d8~ba",
        "~d8~aa~d8~ad~d9~88~d9~8a~d9~84 ~d8~ae~d8~a7~d8~b7~d8~a6",
        "~d8~a3~d8~a8~d8~b9~d8~a7~d8~af ~d8~ae~d8~a7~d8~b7~d8~a6~d8~a9",
        "~d8~ad~d8~af~d8~ab ~d8~ae~d8~b7~d8~a3 ~d8~a3~d8~ab~d9~86~d8~a7~d8~a1 ~d9~82~d8~b1~d8~a7~d8~a1~d8~a9 ~d8~a7~d9~84~d9~85~d9~84~d9~81",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 gif",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 jpeg",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 png",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 tiff",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 mng",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 jp2",
        "~d8~ae~d8~b7~d8~a3 ~d9~81~d9~8a ~d9~85~d9~83~d8~aa~d8~a8~d8~a9 exr",
        "~d8~ae~d8~b7~d8~a3 ~d8~ba~d9~8a~d8~b1 ~d9~85~d8~b9~d8~b1~d9~88~d9~81" >> @@
    ILU_DUTCH :> << "geen fout",
        "Ongeldige enumerant",
        "Geen vrij geheugen meer",
        "Format wordt nog niet ondersteund",
        "Interne fout",
        "Ongeldige waarde",
        "Foute bewerking",
        "Foute bestandswaarde",
        "Foute bestandsbegin",
        "Ongeldige parameter",
        "Kan het bestand niet openen",
        "ongeldige",
        "Bestand bestaat reeds",
        "uitgaand formaat equivalent",
        "stapel overstroming",
        "stapel onderstroming",
        "ongeldige omzetting",
        "slechte afmetingen",
        "Leesfout in bestand",
        "fout in gif bibliotheek",
        "fout in jpeg bibliotheek",
        "fout in png bibliotheek",
        "fout in tiff bibliotheek",
        "fout in mng bibliotheek",
        "fout in jp2 bibliotheek",
        "fout in exr bibliotheek",
        "onbekende fout" >> @@
    ILU_JAPANESE :> << "~e3~82~a8~e3~83~a9~e3~83~bc~e7~84~a1~e3~81~97",
        "~e7~84~a1~e5~8a~b9~e3~81~aa~e5~88~97~e6~8c~99~e5~80~a4",
        "~e3~83~a1~e3~83~a2~e3~83~aa~e4~b8~8d~e8~b6~b3",
        "~e3~81~be~e3~81~a0~e3~82~b5~e3~83~9d~e3~83~bc~e3~83~88~e3~81~95~e3~82~8c~e3~81~a6~e3~81~84~e3~81~aa~e3~81~84~e3~83~95~e3~82~a9~e3~83~bc~e3~83~9e~e3~83~83~e3~83~88",
        "~e5~86~85~e9~83~a8~e3~82~a8~e3~83~a9~e3~83~bc",
        "~e7~84~a1~e5~8a~b9~e3~81~aa~e5~80~a4",
        "~e4~b8~8d~e6~ad~a3~e3~81~aa~e3~82~aa~e3~83~9a~e3~83~ac~e3~83~bc~e3~82~b7~e3~83~a7~e3~83~b3",
        "~e4~b8~8d~e6~ad~a3~e3~81~aa~e3~83~95~e3~82~a1~e3~82~a4~e3~83~ab~e3~81~ae~e5~80~a4",
        "~e7~84~a1~e5~8a~b9~e3~81~aa~e3~83~95~e3~82~a1~e3~82~a4~e3~83~ab~e3~83~98~e3~83~83~e3~83~80",
        "~e7~84~a1~e5~8a~b9~e3~81~aa~e3~83~91~e3~83~a9~e3~83~a1~e3~82~bf",
        "~e3~83~95~e3~82~a1~e3~82~a4~e3~83~ab~e3~81~8c~e9~96~8b~e3~81~91~e3~81~be~e3~81~9b~e3~82~93",
        "~e7~84~a1~e5~8a~b9~e3~81~aa~e6~8b~a1~e5~bc~b5~e5~ad~90",
        "~e3~83~95~e3~82~a1~e3~82~a4~e3~83~ab~e3~81~af~e6~97~a2~e3~81~ab~e5~ad~98~e5~9c~a8~e3~81~97~e3~81~a6~e3~81~84~e3~81~be~e3~81~99",
        "~e7~ad~89~e4~be~a1~e3~83~95~e3~82~a9~e3~83~bc~e3~83~9e~e3~83~83~e3~83~88~e5~a4~96",
        "~e3~82~b9~e3~82~bf~e3~83~83~e3~82~af~e3~82~aa~e3~83~bc~e3~83~90~e3~83~bc~e3~83~95~e3~83~ad~e3~83~bc",
        "~e3~82~b9~e3~82~bf~e3~83~83~e3~82~af~e3~82~a2~e3~83~b3~e3~83~80~e3~83~bc~e3~83~95~e3~83~ad~e3~83~bc",
        "~e7~84~a1~e5~8a~b9~e3~81~aa~e5~a4~89~e6~8f~9b",
        "~e4~b8~8d~e6~ad~a3~e3~81~aa~e3~82~b5~e3~82~a4~e3~82~ba",
        "~e3~83~95~e3~82~a1~e3~82~a4~e3~83~ab~e8~aa~ad~e3~81~bf~e8~be~bc~e3~81~bf~e3~82~a8~e3~83~a9~e3~83~bc",
        "gif~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "jpeg~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "png~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "tiff~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "mng~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "jp2~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "exr~e3~83~a9~e3~82~a4~e3~83~96~e3~83~a9~e3~83~aa~e3~82~a8~e3~83~a9~e3~83~bc",
        "~e4~b8~8d~e6~98~8e~e3~81~aa~e3~82~a8~e3~83~a9~e3~83~bc" >> @@
    ILU_SPANISH :> << "no error",
        "enumerador incorrecto",
        "no queda memoria disponible",
        "formato no soportado todav~eda",
        "error interno",
        "valor incorrecto",
        "operaci~f3n ilegal",
        "valor de fichero ilegal",
        "cabecera incorrecta",
        "par~e1metro incorrecto",
        "no se puede abrir el fichero",
        "extensi~f3n desconocida",
        "el fichero ya existe",
        "formato de salida equivalente",
        "desbordamiento superior de pila",
        "desbordamiento inferior de pila",
        "conversi~f3n incorrecta",
        "n~famero de dimensiones incorrecto",
        "error de lectura en el fichero",
        "error en la librer~eda gif",
        "error en la librer~eda jpeg",
        "error en la librer~eda png",
        "error en la librer~eda tiff",
        "error en la librer~eda mng",
        "error en la librer~eda jp2",
        "error en la librer~eda exr",
        "unknown error" >> @@
    ILU_GERMAN :> << "Kein Fehler",
        "Ung~fcltiger Enumerator",
        "Kein Speicher verf~fcgbar",
        "Das Format wird noch nicht unterst~fctzt",
        "Interner Fehler",
        "Ung~fcltiger Wert",
        "Unzul~e4ssige Operation",
        "Unzul~e4ssiger Datei-Wert",
        "Unzul~e4ssiger Datei-Header",
        "Unzul~e4ssiger Parameter",
        "Datei konnte nicht ge~f6ffnet werden",
        "Ung~fcltiger Erweiterung",
        "Die Datei existiert bereits",
        "out format equivalent",
        "Stack ~dcberlauf",
        "Stack Unterlauf",
        "Ung~fcltige Konvertierung",
        "Unzul~e4ssige Abmessungen",
        "Fehler beim Lesen der Datei",
        "Fehler in der gif Bibliothek",
        "Fehler in der jpeg Bibliothek",
        "Fehler in der png Bibliothek",
        "Fehler in der tiff Bibliothek",
        "Fehler in der mng Bibliothek",
        "Fehler in der jp2 Bibliothek",
        "Fehler in der exr Bibliothek",
        "Unbekannter Fehler" >> @@
    ILU_FRENCH :> << "pas d'erreur",
        "~e9num~e9ration invalide",
        "d~e9passement de m~e9moire",
        "format non support~e9",
        "erreur interne",
        "valeur ill~e9gale",
        "op~e9ration ill~e9gale",
        "valeur de fichier ill~e9gale",
        "en-t~eate de fichier invalide",
        "param~e8tre invalide",
        "ne peut pas ouvrir le fichier",
        "extension invalide",
        "fichier d~e9j~e0 existant",
        "~e9quivalent hors-format",
        "stack overflow",
        "stack underflow",
        "conversion invalide",
        "mauvaises dimensions",
        "erreur lors de la lecture du fichier",
        "gif : erreur dans la librairie",
        "jpeg : erreur dans la librairie",
        "png : erreur dans la librairie",
        "tiff : erreur dans la librairie",
        "mng : erreur dans la librairie",
        "jp2 : erreur dans la librairie",
        "exr : erreur dans la librairie",
        "erreur inconnue" >> @@
    ILU_ITALIAN :> << "niente errore",
        "insediamento nullo",
        "raggiungendo di memoria",
        "configuri non sostenne",
        "erreur interne",
        "errore interno",
        "op~e9ration ill~e9gale",
        "operazione illegale",
        "inebri archivio nullo",
        "parametro nullo",
        "non pu~f2 aprire l'archivio",
        "dilazione nulla",
        "archivi gi~e0 esistendo",
        "equivalente fuori-configuri",
        "inondi di batteria",
        "insufficienza di batteria",
        "conversione nulla",
        "cattive misure",
        "si sbagli alla durata della lettura dell'archivio",
        "gif : si sbagli nella libreria",
        "jpeg : si sbagli nella libreria",
        "png : si sbagli nella libreria",
        "tiff : si sbagli nella libreria",
        "mng : si sbagli nella libreria",
        "jp2 : si sbagli nella libreria",
        "exr : si sbagli nella libreria",
        "errore ignoto" >>)
CodeIdx(x) == {i \in 1..Len(ErrorCodes) : ErrorCodes[i] = x}
\* The description of code x in language l ("?" if x is no documented code).
Text(l, x) == IF CodeIdx(x) = {} THEN "?" ELSE Texts[l][CHOOSE i \in CodeIdx(x) : TRUE]
===============================================================================
