package props

import "github.com/renthraysk/xtorm/netx/connection/errs"

// errorNumbers are MySQL's error numbers (the server error reference of 8.0),
// beside the constants that stand for them.
var errorNumbers = []struct {
	name string
	got  uint32
	want uint32
}{
	{"ErHashchk", errs.ErHashchk, 1000},
	{"ErNisamchk", errs.ErNisamchk, 1001},
	{"ErNo", errs.ErNo, 1002},
	{"ErYes", errs.ErYes, 1003},
	{"ErCantCreateFile", errs.ErCantCreateFile, 1004},
	{"ErCantCreateTable", errs.ErCantCreateTable, 1005},
	{"ErCantCreateDb", errs.ErCantCreateDb, 1006},
	{"ErDbCreateExists", errs.ErDbCreateExists, 1007},
	{"ErDbDropExists", errs.ErDbDropExists, 1008},
	{"ErDbDropDelete", errs.ErDbDropDelete, 1009},
	{"ErDbDropRmdir", errs.ErDbDropRmdir, 1010},
	{"ErCantDeleteFile", errs.ErCantDeleteFile, 1011},
	{"ErCantFindSystemRec", errs.ErCantFindSystemRec, 1012},
	{"ErCantGetStat", errs.ErCantGetStat, 1013},
	{"ErCantGetWd", errs.ErCantGetWd, 1014},
	{"ErCantLock", errs.ErCantLock, 1015},
	{"ErCantOpenFile", errs.ErCantOpenFile, 1016},
	{"ErFileNotFound", errs.ErFileNotFound, 1017},
	{"ErCantReadDir", errs.ErCantReadDir, 1018},
	{"ErCantSetWd", errs.ErCantSetWd, 1019},
	{"ErCheckread", errs.ErCheckread, 1020},
	{"ErDiskFull", errs.ErDiskFull, 1021},
	{"ErDupKey", errs.ErDupKey, 1022},
	{"ErErrorOnClose", errs.ErErrorOnClose, 1023},
	{"ErErrorOnRead", errs.ErErrorOnRead, 1024},
	{"ErErrorOnRename", errs.ErErrorOnRename, 1025},
	{"ErErrorOnWrite", errs.ErErrorOnWrite, 1026},
	{"ErFileUsed", errs.ErFileUsed, 1027},
	{"ErFilsortAbort", errs.ErFilsortAbort, 1028},
	{"ErFormNotFound", errs.ErFormNotFound, 1029},
	{"ErGetErrno", errs.ErGetErrno, 1030},
	{"ErIllegalHa", errs.ErIllegalHa, 1031},
	{"ErKeyNotFound", errs.ErKeyNotFound, 1032},
	{"ErNotFormFile", errs.ErNotFormFile, 1033},
	{"ErNotKeyfile", errs.ErNotKeyfile, 1034},
	{"ErOldKeyfile", errs.ErOldKeyfile, 1035},
	{"ErOpenAsReadonly", errs.ErOpenAsReadonly, 1036},
	{"ErOutofmemory", errs.ErOutofmemory, 1037},
	{"ErOutOfSortmemory", errs.ErOutOfSortmemory, 1038},
	{"ErUnexpectedEOF", errs.ErUnexpectedEOF, 1039},
	{"ErConCountError", errs.ErConCountError, 1040},
	{"ErOutOfResources", errs.ErOutOfResources, 1041},
	{"ErBadHostError", errs.ErBadHostError, 1042},
	{"ErHandshakeError", errs.ErHandshakeError, 1043},
	{"ErDbaccessDeniedError", errs.ErDbaccessDeniedError, 1044},
	{"ErAccessDeniedError", errs.ErAccessDeniedError, 1045},
	{"ErNoDbError", errs.ErNoDbError, 1046},
	{"ErUnknownComError", errs.ErUnknownComError, 1047},
	{"ErBadNullError", errs.ErBadNullError, 1048},
	{"ErBadDbError", errs.ErBadDbError, 1049},
	{"ErTableExistsError", errs.ErTableExistsError, 1050},
	{"ErBadTableError", errs.ErBadTableError, 1051},
	{"ErNonUniqError", errs.ErNonUniqError, 1052},
	{"ErServerShutdown", errs.ErServerShutdown, 1053},
	{"ErBadFieldError", errs.ErBadFieldError, 1054},
	{"ErWrongFieldWithGroup", errs.ErWrongFieldWithGroup, 1055},
	{"ErWrongGroupField", errs.ErWrongGroupField, 1056},
	{"ErWrongSumSelect", errs.ErWrongSumSelect, 1057},
	{"ErWrongValueCount", errs.ErWrongValueCount, 1058},
	{"ErTooLongIdent", errs.ErTooLongIdent, 1059},
	{"ErDupFieldname", errs.ErDupFieldname, 1060},
	{"ErDupKeyname", errs.ErDupKeyname, 1061},
	{"ErDupEntry", errs.ErDupEntry, 1062},
	{"ErWrongFieldSpec", errs.ErWrongFieldSpec, 1063},
	{"ErParseError", errs.ErParseError, 1064},
	{"ErEmptyQuery", errs.ErEmptyQuery, 1065},
	{"ErNonuniqTable", errs.ErNonuniqTable, 1066},
	{"ErInvalidDefault", errs.ErInvalidDefault, 1067},
	{"ErMultiplePriKey", errs.ErMultiplePriKey, 1068},
	{"ErTooManyKeys", errs.ErTooManyKeys, 1069},
	{"ErTooManyKeyParts", errs.ErTooManyKeyParts, 1070},
	{"ErTooLongKey", errs.ErTooLongKey, 1071},
	{"ErKeyColumnDoesNotExits", errs.ErKeyColumnDoesNotExits, 1072},
	{"ErBlobUsedAsKey", errs.ErBlobUsedAsKey, 1073},
	{"ErTooBigFieldlength", errs.ErTooBigFieldlength, 1074},
	{"ErWrongAutoKey", errs.ErWrongAutoKey, 1075},
	{"ErReady", errs.ErReady, 1076},
	{"ErNormalShutdown", errs.ErNormalShutdown, 1077},
	{"ErGotSignal", errs.ErGotSignal, 1078},
	{"ErShutdownComplete", errs.ErShutdownComplete, 1079},
	{"ErForcingClose", errs.ErForcingClose, 1080},
	{"ErIpsockError", errs.ErIpsockError, 1081},
	{"ErNoSuchIndex", errs.ErNoSuchIndex, 1082},
	{"ErWrongFieldTerminators", errs.ErWrongFieldTerminators, 1083},
	{"ErBlobsAndNoTerminated", errs.ErBlobsAndNoTerminated, 1084},
	{"ErTextfileNotReadable", errs.ErTextfileNotReadable, 1085},
	{"ErFileExistsError", errs.ErFileExistsError, 1086},
	{"ErLoadInfo", errs.ErLoadInfo, 1087},
	{"ErAlterInfo", errs.ErAlterInfo, 1088},
	{"ErWrongSubKey", errs.ErWrongSubKey, 1089},
	{"ErCantRemoveAllFields", errs.ErCantRemoveAllFields, 1090},
	{"ErCantDropFieldOrKey", errs.ErCantDropFieldOrKey, 1091},
	{"ErInsertInfo", errs.ErInsertInfo, 1092},
	{"ErUpdateTableUsed", errs.ErUpdateTableUsed, 1093},
	{"ErNoSuchThread", errs.ErNoSuchThread, 1094},
	{"ErKillDeniedError", errs.ErKillDeniedError, 1095},
	{"ErNoTablesUsed", errs.ErNoTablesUsed, 1096},
	{"ErTooBigSet", errs.ErTooBigSet, 1097},
	{"ErNoUniqueLogfile", errs.ErNoUniqueLogfile, 1098},
	{"ErTableNotLockedForWrite", errs.ErTableNotLockedForWrite, 1099},
	{"ErTableNotLocked", errs.ErTableNotLocked, 1100},
	{"ErBlobCantHaveDefault", errs.ErBlobCantHaveDefault, 1101},
	{"ErWrongDbName", errs.ErWrongDbName, 1102},
	{"ErWrongTableName", errs.ErWrongTableName, 1103},
	{"ErTooBigSelect", errs.ErTooBigSelect, 1104},
	{"ErUnknownError", errs.ErUnknownError, 1105},
	{"ErUnknownProcedure", errs.ErUnknownProcedure, 1106},
	{"ErWrongParamcountToProcedure", errs.ErWrongParamcountToProcedure, 1107},
	{"ErWrongParametersToProcedure", errs.ErWrongParametersToProcedure, 1108},
	{"ErUnknownTable", errs.ErUnknownTable, 1109},
	{"ErFieldSpecifiedTwice", errs.ErFieldSpecifiedTwice, 1110},
	{"ErInvalidGroupFuncUse", errs.ErInvalidGroupFuncUse, 1111},
	{"ErUnsupportedExtension", errs.ErUnsupportedExtension, 1112},
	{"ErTableMustHaveColumns", errs.ErTableMustHaveColumns, 1113},
	{"ErRecordFileFull", errs.ErRecordFileFull, 1114},
	{"ErUnknownCharacterSet", errs.ErUnknownCharacterSet, 1115},
	{"ErTooManyTables", errs.ErTooManyTables, 1116},
	{"ErTooManyFields", errs.ErTooManyFields, 1117},
	{"ErTooBigRowsize", errs.ErTooBigRowsize, 1118},
	{"ErStackOverrun", errs.ErStackOverrun, 1119},
	{"ErWrongOuterJoin", errs.ErWrongOuterJoin, 1120},
	{"ErNullColumnInIndex", errs.ErNullColumnInIndex, 1121},
	{"ErCantFindUdf", errs.ErCantFindUdf, 1122},
	{"ErCantInitializeUdf", errs.ErCantInitializeUdf, 1123},
	{"ErUdfNoPaths", errs.ErUdfNoPaths, 1124},
	{"ErUdfExists", errs.ErUdfExists, 1125},
	{"ErCantOpenLibrary", errs.ErCantOpenLibrary, 1126},
	{"ErCantFindDlEntry", errs.ErCantFindDlEntry, 1127},
	{"ErFunctionNotDefined", errs.ErFunctionNotDefined, 1128},
	{"ErHostIsBlocked", errs.ErHostIsBlocked, 1129},
	{"ErHostNotPrivileged", errs.ErHostNotPrivileged, 1130},
	{"ErPasswordAnonymousUser", errs.ErPasswordAnonymousUser, 1131},
	{"ErPasswordNotAllowed", errs.ErPasswordNotAllowed, 1132},
	{"ErPasswordNoMatch", errs.ErPasswordNoMatch, 1133},
	{"ErUpdateInfo", errs.ErUpdateInfo, 1134},
	{"ErCantCreateThread", errs.ErCantCreateThread, 1135},
	{"ErWrongValueCountOnRow", errs.ErWrongValueCountOnRow, 1136},
	{"ErCantReopenTable", errs.ErCantReopenTable, 1137},
	{"ErInvalidUseOfNull", errs.ErInvalidUseOfNull, 1138},
	{"ErRegexpError", errs.ErRegexpError, 1139},
	{"ErMixOfGroupFuncAndFields", errs.ErMixOfGroupFuncAndFields, 1140},
	{"ErNonexistingGrant", errs.ErNonexistingGrant, 1141},
	{"ErTableaccessDeniedError", errs.ErTableaccessDeniedError, 1142},
	{"ErColumnaccessDeniedError", errs.ErColumnaccessDeniedError, 1143},
	{"ErIllegalGrantForTable", errs.ErIllegalGrantForTable, 1144},
	{"ErGrantWrongHostOrUser", errs.ErGrantWrongHostOrUser, 1145},
	{"ErNoSuchTable", errs.ErNoSuchTable, 1146},
	{"ErNonexistingTableGrant", errs.ErNonexistingTableGrant, 1147},
	{"ErNotAllowedCommand", errs.ErNotAllowedCommand, 1148},
	{"ErSyntaxError", errs.ErSyntaxError, 1149},
	{"ErDelayedCantChangeLock", errs.ErDelayedCantChangeLock, 1150},
	{"ErTooManyDelayedThreads", errs.ErTooManyDelayedThreads, 1151},
	{"ErAbortingConnection", errs.ErAbortingConnection, 1152},
	{"ErNetPacketTooLarge", errs.ErNetPacketTooLarge, 1153},
	{"ErNetReadErrorFromPipe", errs.ErNetReadErrorFromPipe, 1154},
	{"ErNetFcntlError", errs.ErNetFcntlError, 1155},
	{"ErNetPacketsOutOfOrder", errs.ErNetPacketsOutOfOrder, 1156},
	{"ErNetUncompressError", errs.ErNetUncompressError, 1157},
	{"ErNetReadError", errs.ErNetReadError, 1158},
	{"ErNetReadInterrupted", errs.ErNetReadInterrupted, 1159},
	{"ErNetErrorOnWrite", errs.ErNetErrorOnWrite, 1160},
	{"ErNetWriteInterrupted", errs.ErNetWriteInterrupted, 1161},
	{"ErTooLongString", errs.ErTooLongString, 1162},
	{"ErTableCantHandleBlob", errs.ErTableCantHandleBlob, 1163},
	{"ErTableCantHandleAutoIncrement", errs.ErTableCantHandleAutoIncrement, 1164},
	{"ErDelayedInsertTableLocked", errs.ErDelayedInsertTableLocked, 1165},
	{"ErWrongColumnName", errs.ErWrongColumnName, 1166},
	{"ErWrongKeyColumn", errs.ErWrongKeyColumn, 1167},
	{"ErWrongMrgTable", errs.ErWrongMrgTable, 1168},
	{"ErDupUnique", errs.ErDupUnique, 1169},
	{"ErBlobKeyWithoutLength", errs.ErBlobKeyWithoutLength, 1170},
	{"ErPrimaryCantHaveNull", errs.ErPrimaryCantHaveNull, 1171},
	{"ErTooManyRows", errs.ErTooManyRows, 1172},
	{"ErRequiresPrimaryKey", errs.ErRequiresPrimaryKey, 1173},
	{"ErNoRaidCompiled", errs.ErNoRaidCompiled, 1174},
	{"ErUpdateWithoutKeyInSafeMode", errs.ErUpdateWithoutKeyInSafeMode, 1175},
	{"ErKeyDoesNotExits", errs.ErKeyDoesNotExits, 1176},
	{"ErCheckNoSuchTable", errs.ErCheckNoSuchTable, 1177},
	{"ErCheckNotImplemented", errs.ErCheckNotImplemented, 1178},
	{"ErCantDoThisDuringAnTransaction", errs.ErCantDoThisDuringAnTransaction, 1179},
	{"ErErrorDuringCommit", errs.ErErrorDuringCommit, 1180},
	{"ErErrorDuringRollback", errs.ErErrorDuringRollback, 1181},
	{"ErErrorDuringFlushLogs", errs.ErErrorDuringFlushLogs, 1182},
	{"ErErrorDuringCheckpoint", errs.ErErrorDuringCheckpoint, 1183},
	{"ErNewAbortingConnection", errs.ErNewAbortingConnection, 1184},
	{"ErDumpNotImplemented", errs.ErDumpNotImplemented, 1185},
	{"ErFlushMasterBinlogClosed", errs.ErFlushMasterBinlogClosed, 1186},
	{"ErIndexRebuild", errs.ErIndexRebuild, 1187},
	{"ErMaster", errs.ErMaster, 1188},
	{"ErMasterNetRead", errs.ErMasterNetRead, 1189},
	{"ErMasterNetWrite", errs.ErMasterNetWrite, 1190},
	{"ErFtMatchingKeyNotFound", errs.ErFtMatchingKeyNotFound, 1191},
	{"ErLockOrActiveTransaction", errs.ErLockOrActiveTransaction, 1192},
	{"ErUnknownSystemVariable", errs.ErUnknownSystemVariable, 1193},
	{"ErCrashedOnUsage", errs.ErCrashedOnUsage, 1194},
	{"ErCrashedOnRepair", errs.ErCrashedOnRepair, 1195},
	{"ErWarningNotCompleteRollback", errs.ErWarningNotCompleteRollback, 1196},
	{"ErTransCacheFull", errs.ErTransCacheFull, 1197},
	{"ErSlaveMustStop", errs.ErSlaveMustStop, 1198},
	{"ErSlaveNotRunning", errs.ErSlaveNotRunning, 1199},
	{"ErBadSlave", errs.ErBadSlave, 1200},
	{"ErMasterInfo", errs.ErMasterInfo, 1201},
	{"ErSlaveThread", errs.ErSlaveThread, 1202},
	{"ErTooManyUserConnections", errs.ErTooManyUserConnections, 1203},
	{"ErSetConstantsOnly", errs.ErSetConstantsOnly, 1204},
	{"ErLockWaitTimeout", errs.ErLockWaitTimeout, 1205},
	{"ErLockTableFull", errs.ErLockTableFull, 1206},
	{"ErReadOnlyTransaction", errs.ErReadOnlyTransaction, 1207},
	{"ErDropDbWithReadLock", errs.ErDropDbWithReadLock, 1208},
	{"ErCreateDbWithReadLock", errs.ErCreateDbWithReadLock, 1209},
	{"ErWrongArguments", errs.ErWrongArguments, 1210},
	{"ErNoPermissionToCreateUser", errs.ErNoPermissionToCreateUser, 1211},
	{"ErUnionTablesInDifferentDir", errs.ErUnionTablesInDifferentDir, 1212},
	{"ErLockDeadlock", errs.ErLockDeadlock, 1213},
	{"ErTableCantHandleFt", errs.ErTableCantHandleFt, 1214},
	{"ErCannotAddForeign", errs.ErCannotAddForeign, 1215},
	{"ErNoReferencedRow", errs.ErNoReferencedRow, 1216},
	{"ErRowIsReferenced", errs.ErRowIsReferenced, 1217},
	{"ErConnectToMaster", errs.ErConnectToMaster, 1218},
	{"ErQueryOnMaster", errs.ErQueryOnMaster, 1219},
	{"ErErrorWhenExecutingCommand", errs.ErErrorWhenExecutingCommand, 1220},
	{"ErWrongUsage", errs.ErWrongUsage, 1221},
	{"ErWrongNumberOfColumnsInSelect", errs.ErWrongNumberOfColumnsInSelect, 1222},
	{"ErCantUpdateWithReadlock", errs.ErCantUpdateWithReadlock, 1223},
	{"ErMixingNotAllowed", errs.ErMixingNotAllowed, 1224},
	{"ErDupArgument", errs.ErDupArgument, 1225},
	{"ErUserLimitReached", errs.ErUserLimitReached, 1226},
	{"ErSpecificAccessDeniedError", errs.ErSpecificAccessDeniedError, 1227},
	{"ErLocalVariable", errs.ErLocalVariable, 1228},
	{"ErGlobalVariable", errs.ErGlobalVariable, 1229},
	{"ErNoDefault", errs.ErNoDefault, 1230},
	{"ErWrongValueForVar", errs.ErWrongValueForVar, 1231},
	{"ErWrongTypeForVar", errs.ErWrongTypeForVar, 1232},
	{"ErVarCantBeRead", errs.ErVarCantBeRead, 1233},
	{"ErCantUseOptionHere", errs.ErCantUseOptionHere, 1234},
	{"ErNotSupportedYet", errs.ErNotSupportedYet, 1235},
	{"ErMasterFatalErrorReadingBinlog", errs.ErMasterFatalErrorReadingBinlog, 1236},
	{"ErSlaveIgnoredTable", errs.ErSlaveIgnoredTable, 1237},
	{"ErIncorrectGlobalLocalVar", errs.ErIncorrectGlobalLocalVar, 1238},
	{"ErWrongFkDef", errs.ErWrongFkDef, 1239},
	{"ErKeyRefDoNotMatchTableRef", errs.ErKeyRefDoNotMatchTableRef, 1240},
	{"ErOperandColumns", errs.ErOperandColumns, 1241},
	{"ErSubqueryNo1Row", errs.ErSubqueryNo1Row, 1242},
	{"ErUnknownStmtHandler", errs.ErUnknownStmtHandler, 1243},
	{"ErCorruptHelpDb", errs.ErCorruptHelpDb, 1244},
	{"ErCyclicReference", errs.ErCyclicReference, 1245},
	{"ErAutoConvert", errs.ErAutoConvert, 1246},
	{"ErIllegalReference", errs.ErIllegalReference, 1247},
	{"ErDerivedMustHaveAlias", errs.ErDerivedMustHaveAlias, 1248},
	{"ErSelectReduced", errs.ErSelectReduced, 1249},
	{"ErTablenameNotAllowedHere", errs.ErTablenameNotAllowedHere, 1250},
	{"ErNotSupportedAuthMode", errs.ErNotSupportedAuthMode, 1251},
	{"ErSpatialCantHaveNull", errs.ErSpatialCantHaveNull, 1252},
	{"ErCollationCharsetMismatch", errs.ErCollationCharsetMismatch, 1253},
	{"ErSlaveWasRunning", errs.ErSlaveWasRunning, 1254},
	{"ErSlaveWasNotRunning", errs.ErSlaveWasNotRunning, 1255},
	{"ErTooBigForUncompress", errs.ErTooBigForUncompress, 1256},
	{"ErZlibZMemError", errs.ErZlibZMemError, 1257},
	{"ErZlibZBufError", errs.ErZlibZBufError, 1258},
	{"ErZlibZDataError", errs.ErZlibZDataError, 1259},
	{"ErCutValueGroupConcat", errs.ErCutValueGroupConcat, 1260},
	{"ErWarnTooFewRecords", errs.ErWarnTooFewRecords, 1261},
	{"ErWarnTooManyRecords", errs.ErWarnTooManyRecords, 1262},
	{"ErWarnNullToNotnull", errs.ErWarnNullToNotnull, 1263},
	{"ErWarnDataOutOfRange", errs.ErWarnDataOutOfRange, 1264},
	{"WARNDataTruncated", errs.WARNDataTruncated, 1265},
	{"ErWarnUsingOtherHandler", errs.ErWarnUsingOtherHandler, 1266},
	{"ErCantAggregate2Collations", errs.ErCantAggregate2Collations, 1267},
	{"ErDropUser", errs.ErDropUser, 1268},
	{"ErRevokeGrants", errs.ErRevokeGrants, 1269},
	{"ErCantAggregate3Collations", errs.ErCantAggregate3Collations, 1270},
	{"ErCantAggregateNcollations", errs.ErCantAggregateNcollations, 1271},
	{"ErVariableIsNotStruct", errs.ErVariableIsNotStruct, 1272},
	{"ErUnknownCollation", errs.ErUnknownCollation, 1273},
	{"ErSlaveIgnoredSslParams", errs.ErSlaveIgnoredSslParams, 1274},
	{"ErServerIsInSecureAuthMode", errs.ErServerIsInSecureAuthMode, 1275},
	{"ErWarnFieldResolved", errs.ErWarnFieldResolved, 1276},
	{"ErBadSlaveUntilCond", errs.ErBadSlaveUntilCond, 1277},
	{"ErMissingSkipSlave", errs.ErMissingSkipSlave, 1278},
	{"ErUntilCondIgnored", errs.ErUntilCondIgnored, 1279},
	{"ErWrongNameForIndex", errs.ErWrongNameForIndex, 1280},
	{"ErWrongNameForCatalog", errs.ErWrongNameForCatalog, 1281},
	{"ErWarnQcResize", errs.ErWarnQcResize, 1282},
	{"ErBadFtColumn", errs.ErBadFtColumn, 1283},
	{"ErUnknownKeyCache", errs.ErUnknownKeyCache, 1284},
	{"ErWarnHostnameWontWork", errs.ErWarnHostnameWontWork, 1285},
	{"ErUnknownStorageEngine", errs.ErUnknownStorageEngine, 1286},
	{"ErWarnDeprecatedSyntax", errs.ErWarnDeprecatedSyntax, 1287},
	{"ErNonUpdatableTable", errs.ErNonUpdatableTable, 1288},
	{"ErFeatureDisabled", errs.ErFeatureDisabled, 1289},
	{"ErOptionPreventsStatement", errs.ErOptionPreventsStatement, 1290},
	{"ErDuplicatedValueInType", errs.ErDuplicatedValueInType, 1291},
	{"ErTruncatedWrongValue", errs.ErTruncatedWrongValue, 1292},
	{"ErTooMuchAutoTimestampCols", errs.ErTooMuchAutoTimestampCols, 1293},
	{"ErInvalidOnUpdate", errs.ErInvalidOnUpdate, 1294},
	{"ErUnsupportedPs", errs.ErUnsupportedPs, 1295},
	{"ErGetErrmsg", errs.ErGetErrmsg, 1296},
	{"ErGetTemporaryErrmsg", errs.ErGetTemporaryErrmsg, 1297},
	{"ErUnknownTimeZone", errs.ErUnknownTimeZone, 1298},
	{"ErWarnInvalidTimestamp", errs.ErWarnInvalidTimestamp, 1299},
	{"ErInvalidCharacterString", errs.ErInvalidCharacterString, 1300},
	{"ErWarnAllowedPacketOverflowed", errs.ErWarnAllowedPacketOverflowed, 1301},
	{"ErConflictingDeclarations", errs.ErConflictingDeclarations, 1302},
	{"ErSpNoRecursiveCreate", errs.ErSpNoRecursiveCreate, 1303},
	{"ErSpAlreadyExists", errs.ErSpAlreadyExists, 1304},
	{"ErSpDoesNotExist", errs.ErSpDoesNotExist, 1305},
	{"ErSpDropFailed", errs.ErSpDropFailed, 1306},
	{"ErSpStoreFailed", errs.ErSpStoreFailed, 1307},
	{"ErSpLilabelMismatch", errs.ErSpLilabelMismatch, 1308},
	{"ErSpLabelRedefine", errs.ErSpLabelRedefine, 1309},
	{"ErSpLabelMismatch", errs.ErSpLabelMismatch, 1310},
	{"ErSpUninitVar", errs.ErSpUninitVar, 1311},
	{"ErSpBadselect", errs.ErSpBadselect, 1312},
	{"ErSpBadreturn", errs.ErSpBadreturn, 1313},
	{"ErSpBadstatement", errs.ErSpBadstatement, 1314},
	{"ErUpdateLogDeprecatedIgnored", errs.ErUpdateLogDeprecatedIgnored, 1315},
	{"ErUpdateLogDeprecatedTranslated", errs.ErUpdateLogDeprecatedTranslated, 1316},
	{"ErQueryInterrupted", errs.ErQueryInterrupted, 1317},
	{"ErSpWrongNoOfArgs", errs.ErSpWrongNoOfArgs, 1318},
	{"ErSpCondMismatch", errs.ErSpCondMismatch, 1319},
	{"ErSpNoreturn", errs.ErSpNoreturn, 1320},
	{"ErSpNoreturnend", errs.ErSpNoreturnend, 1321},
	{"ErSpBadCursorQuery", errs.ErSpBadCursorQuery, 1322},
	{"ErSpBadCursorSelect", errs.ErSpBadCursorSelect, 1323},
	{"ErSpCursorMismatch", errs.ErSpCursorMismatch, 1324},
	{"ErSpCursorAlreadyOpen", errs.ErSpCursorAlreadyOpen, 1325},
	{"ErSpCursorNotOpen", errs.ErSpCursorNotOpen, 1326},
	{"ErSpUndeclaredVar", errs.ErSpUndeclaredVar, 1327},
	{"ErSpWrongNoOfFetchArgs", errs.ErSpWrongNoOfFetchArgs, 1328},
	{"ErSpFetchNoData", errs.ErSpFetchNoData, 1329},
	{"ErSpDupParam", errs.ErSpDupParam, 1330},
	{"ErSpDupVar", errs.ErSpDupVar, 1331},
	{"ErSpDupCond", errs.ErSpDupCond, 1332},
	{"ErSpDupCurs", errs.ErSpDupCurs, 1333},
	{"ErSpCantAlter", errs.ErSpCantAlter, 1334},
	{"ErSpSubselectNyi", errs.ErSpSubselectNyi, 1335},
	{"ErStmtNotAllowedInSfOrTrg", errs.ErStmtNotAllowedInSfOrTrg, 1336},
	{"ErSpVarcondAfterCurshndlr", errs.ErSpVarcondAfterCurshndlr, 1337},
	{"ErSpCursorAfterHandler", errs.ErSpCursorAfterHandler, 1338},
	{"ErSpCaseNotFound", errs.ErSpCaseNotFound, 1339},
	{"ErFparserTooBigFile", errs.ErFparserTooBigFile, 1340},
	{"ErFparserBadHeader", errs.ErFparserBadHeader, 1341},
	{"ErFparserEOFInComment", errs.ErFparserEOFInComment, 1342},
	{"ErFparserErrorInParameter", errs.ErFparserErrorInParameter, 1343},
	{"ErFparserEOFInUnknownParameter", errs.ErFparserEOFInUnknownParameter, 1344},
	{"ErViewNoExplain", errs.ErViewNoExplain, 1345},
	{"ErFrmUnknownType", errs.ErFrmUnknownType, 1346},
	{"ErWrongObject", errs.ErWrongObject, 1347},
	{"ErNonupdateableColumn", errs.ErNonupdateableColumn, 1348},
	{"ErViewSelectDerived", errs.ErViewSelectDerived, 1349},
	{"ErViewSelectClause", errs.ErViewSelectClause, 1350},
	{"ErViewSelectVariable", errs.ErViewSelectVariable, 1351},
	{"ErViewSelectTmptable", errs.ErViewSelectTmptable, 1352},
	{"ErViewWrongList", errs.ErViewWrongList, 1353},
	{"ErWarnViewMerge", errs.ErWarnViewMerge, 1354},
	{"ErWarnViewWithoutKey", errs.ErWarnViewWithoutKey, 1355},
	{"ErViewInvalid", errs.ErViewInvalid, 1356},
	{"ErSpNoDropSp", errs.ErSpNoDropSp, 1357},
	{"ErSpGotoInHndlr", errs.ErSpGotoInHndlr, 1358},
	{"ErTrgAlreadyExists", errs.ErTrgAlreadyExists, 1359},
	{"ErTrgDoesNotExist", errs.ErTrgDoesNotExist, 1360},
	{"ErTrgOnViewOrTempTable", errs.ErTrgOnViewOrTempTable, 1361},
	{"ErTrgCantChangeRow", errs.ErTrgCantChangeRow, 1362},
	{"ErTrgNoSuchRowInTrg", errs.ErTrgNoSuchRowInTrg, 1363},
	{"ErNoDefaultForField", errs.ErNoDefaultForField, 1364},
	{"ErDivisionByZero", errs.ErDivisionByZero, 1365},
	{"ErTruncatedWrongValueForField", errs.ErTruncatedWrongValueForField, 1366},
	{"ErIllegalValueForType", errs.ErIllegalValueForType, 1367},
	{"ErViewNonupdCheck", errs.ErViewNonupdCheck, 1368},
	{"ErViewCheckFailed", errs.ErViewCheckFailed, 1369},
	{"ErProcaccessDeniedError", errs.ErProcaccessDeniedError, 1370},
	{"ErRelayLogFail", errs.ErRelayLogFail, 1371},
	{"ErPasswdLength", errs.ErPasswdLength, 1372},
	{"ErUnknownTargetBinlog", errs.ErUnknownTargetBinlog, 1373},
	{"ErIoErrLogIndexRead", errs.ErIoErrLogIndexRead, 1374},
	{"ErBinlogPurgeProhibited", errs.ErBinlogPurgeProhibited, 1375},
	{"ErFseekFail", errs.ErFseekFail, 1376},
	{"ErBinlogPurgeFatalErr", errs.ErBinlogPurgeFatalErr, 1377},
	{"ErLogInUse", errs.ErLogInUse, 1378},
	{"ErLogPurgeUnknownErr", errs.ErLogPurgeUnknownErr, 1379},
	{"ErRelayLogInit", errs.ErRelayLogInit, 1380},
	{"ErNoBinaryLogging", errs.ErNoBinaryLogging, 1381},
	{"ErReservedSyntax", errs.ErReservedSyntax, 1382},
	{"ErWsasFailed", errs.ErWsasFailed, 1383},
	{"ErDiffGroupsProc", errs.ErDiffGroupsProc, 1384},
	{"ErNoGroupForProc", errs.ErNoGroupForProc, 1385},
	{"ErOrderWithProc", errs.ErOrderWithProc, 1386},
	{"ErLoggingProhibitChangingOf", errs.ErLoggingProhibitChangingOf, 1387},
	{"ErNoFileMapping", errs.ErNoFileMapping, 1388},
	{"ErWrongMagic", errs.ErWrongMagic, 1389},
	{"ErPsManyParam", errs.ErPsManyParam, 1390},
	{"ErKeyPart0", errs.ErKeyPart0, 1391},
	{"ErViewChecksum", errs.ErViewChecksum, 1392},
	{"ErViewMultiupdate", errs.ErViewMultiupdate, 1393},
	{"ErViewNoInsertFieldList", errs.ErViewNoInsertFieldList, 1394},
	{"ErViewDeleteMergeView", errs.ErViewDeleteMergeView, 1395},
	{"ErCannotUser", errs.ErCannotUser, 1396},
	{"ErXaerNota", errs.ErXaerNota, 1397},
	{"ErXaerInval", errs.ErXaerInval, 1398},
	{"ErXaerRmfail", errs.ErXaerRmfail, 1399},
	{"ErXaerOutside", errs.ErXaerOutside, 1400},
	{"ErXaerRmerr", errs.ErXaerRmerr, 1401},
	{"ErXaRbrollback", errs.ErXaRbrollback, 1402},
	{"ErNonexistingProcGrant", errs.ErNonexistingProcGrant, 1403},
	{"ErProcAutoGrantFail", errs.ErProcAutoGrantFail, 1404},
	{"ErProcAutoRevokeFail", errs.ErProcAutoRevokeFail, 1405},
	{"ErDataTooLong", errs.ErDataTooLong, 1406},
	{"ErSpBadSqlstate", errs.ErSpBadSqlstate, 1407},
	{"ErStartup", errs.ErStartup, 1408},
	{"ErLoadFromFixedSizeRowsToVar", errs.ErLoadFromFixedSizeRowsToVar, 1409},
	{"ErCantCreateUserWithGrant", errs.ErCantCreateUserWithGrant, 1410},
	{"ErWrongValueForType", errs.ErWrongValueForType, 1411},
	{"ErTableDefChanged", errs.ErTableDefChanged, 1412},
	{"ErSpDupHandler", errs.ErSpDupHandler, 1413},
	{"ErSpNotVarArg", errs.ErSpNotVarArg, 1414},
	{"ErSpNoRetset", errs.ErSpNoRetset, 1415},
	{"ErCantCreateGeometryObject", errs.ErCantCreateGeometryObject, 1416},
	{"ErFailedRoutineBreakBinlog", errs.ErFailedRoutineBreakBinlog, 1417},
	{"ErBinlogUnsafeRoutine", errs.ErBinlogUnsafeRoutine, 1418},
	{"ErBinlogCreateRoutineNeedSuper", errs.ErBinlogCreateRoutineNeedSuper, 1419},
	{"ErExecStmtWithOpenCursor", errs.ErExecStmtWithOpenCursor, 1420},
	{"ErStmtHasNoOpenCursor", errs.ErStmtHasNoOpenCursor, 1421},
	{"ErCommitNotAllowedInSfOrTrg", errs.ErCommitNotAllowedInSfOrTrg, 1422},
	{"ErNoDefaultForViewField", errs.ErNoDefaultForViewField, 1423},
	{"ErSpNoRecursion", errs.ErSpNoRecursion, 1424},
	{"ErTooBigScale", errs.ErTooBigScale, 1425},
	{"ErTooBigPrecision", errs.ErTooBigPrecision, 1426},
	{"ErMBiggerThanD", errs.ErMBiggerThanD, 1427},
	{"ErWrongLockOfSystemTable", errs.ErWrongLockOfSystemTable, 1428},
	{"ErConnectToForeignDataSource", errs.ErConnectToForeignDataSource, 1429},
	{"ErQueryOnForeignDataSource", errs.ErQueryOnForeignDataSource, 1430},
	{"ErForeignDataSourceDoesntExist", errs.ErForeignDataSourceDoesntExist, 1431},
	{"ErForeignDataStringInvalidCantCreate", errs.ErForeignDataStringInvalidCantCreate, 1432},
	{"ErForeignDataStringInvalid", errs.ErForeignDataStringInvalid, 1433},
	{"ErCantCreateFederatedTable", errs.ErCantCreateFederatedTable, 1434},
	{"ErTrgInWrongSchema", errs.ErTrgInWrongSchema, 1435},
	{"ErStackOverrunNeedMore", errs.ErStackOverrunNeedMore, 1436},
	{"ErTooLongBody", errs.ErTooLongBody, 1437},
	{"ErWarnCantDropDefaultKeycache", errs.ErWarnCantDropDefaultKeycache, 1438},
	{"ErTooBigDisplaywidth", errs.ErTooBigDisplaywidth, 1439},
	{"ErXaerDupid", errs.ErXaerDupid, 1440},
	{"ErDatetimeFunctionOverflow", errs.ErDatetimeFunctionOverflow, 1441},
	{"ErCantUpdateUsedTableInSfOrTrg", errs.ErCantUpdateUsedTableInSfOrTrg, 1442},
	{"ErViewPreventUpdate", errs.ErViewPreventUpdate, 1443},
	{"ErPsNoRecursion", errs.ErPsNoRecursion, 1444},
	{"ErSpCantSetAutocommit", errs.ErSpCantSetAutocommit, 1445},
	{"ErMalformedDefiner", errs.ErMalformedDefiner, 1446},
	{"ErViewFrmNoUser", errs.ErViewFrmNoUser, 1447},
	{"ErViewOtherUser", errs.ErViewOtherUser, 1448},
	{"ErNoSuchUser", errs.ErNoSuchUser, 1449},
	{"ErForbidSchemaChange", errs.ErForbidSchemaChange, 1450},
	{"ErRowIsReferenced2", errs.ErRowIsReferenced2, 1451},
	{"ErNoReferencedRow2", errs.ErNoReferencedRow2, 1452},
	{"ErSpBadVarShadow", errs.ErSpBadVarShadow, 1453},
	{"ErTrgNoDefiner", errs.ErTrgNoDefiner, 1454},
	{"ErOldFileFormat", errs.ErOldFileFormat, 1455},
	{"ErSpRecursionLimit", errs.ErSpRecursionLimit, 1456},
	{"ErSpProcTableCorrupt", errs.ErSpProcTableCorrupt, 1457},
	{"ErSpWrongName", errs.ErSpWrongName, 1458},
	{"ErTableNeedsUpgrade", errs.ErTableNeedsUpgrade, 1459},
	{"ErSpNoAggregate", errs.ErSpNoAggregate, 1460},
	{"ErMaxPreparedStmtCountReached", errs.ErMaxPreparedStmtCountReached, 1461},
	{"ErViewRecursive", errs.ErViewRecursive, 1462},
	{"ErNonGroupingFieldUsed", errs.ErNonGroupingFieldUsed, 1463},
	{"ErTableCantHandleSpkeys", errs.ErTableCantHandleSpkeys, 1464},
	{"ErNoTriggersOnSystemSchema", errs.ErNoTriggersOnSystemSchema, 1465},
	{"ErRemovedSpaces", errs.ErRemovedSpaces, 1466},
	{"ErAutoincReadFailed", errs.ErAutoincReadFailed, 1467},
	{"ErUsername", errs.ErUsername, 1468},
	{"ErHostname", errs.ErHostname, 1469},
	{"ErWrongStringLength", errs.ErWrongStringLength, 1470},
	{"ErNonInsertableTable", errs.ErNonInsertableTable, 1471},
	{"ErAdminWrongMrgTable", errs.ErAdminWrongMrgTable, 1472},
	{"ErTooHighLevelOfNestingForSelect", errs.ErTooHighLevelOfNestingForSelect, 1473},
	{"ErNameBecomesEmpty", errs.ErNameBecomesEmpty, 1474},
	{"ErAmbiguousFieldTerm", errs.ErAmbiguousFieldTerm, 1475},
	{"ErForeignServerExists", errs.ErForeignServerExists, 1476},
	{"ErForeignServerDoesntExist", errs.ErForeignServerDoesntExist, 1477},
	{"ErIllegalHaCreateOption", errs.ErIllegalHaCreateOption, 1478},
	{"ErPartitionRequiresValuesError", errs.ErPartitionRequiresValuesError, 1479},
	{"ErPartitionWrongValuesError", errs.ErPartitionWrongValuesError, 1480},
	{"ErPartitionMaxvalueError", errs.ErPartitionMaxvalueError, 1481},
	{"ErPartitionSubpartitionError", errs.ErPartitionSubpartitionError, 1482},
	{"ErPartitionSubpartMixError", errs.ErPartitionSubpartMixError, 1483},
	{"ErPartitionWrongNoPartError", errs.ErPartitionWrongNoPartError, 1484},
	{"ErPartitionWrongNoSubpartError", errs.ErPartitionWrongNoSubpartError, 1485},
	{"ErWrongExprInPartitionFuncError", errs.ErWrongExprInPartitionFuncError, 1486},
	{"ErNoConstExprInRangeOrListError", errs.ErNoConstExprInRangeOrListError, 1487},
	{"ErFieldNotFoundPartError", errs.ErFieldNotFoundPartError, 1488},
	{"ErListOfFieldsOnlyInHashError", errs.ErListOfFieldsOnlyInHashError, 1489},
	{"ErInconsistentPartitionInfoError", errs.ErInconsistentPartitionInfoError, 1490},
	{"ErPartitionFuncNotAllowedError", errs.ErPartitionFuncNotAllowedError, 1491},
	{"ErPartitionsMustBeDefinedError", errs.ErPartitionsMustBeDefinedError, 1492},
	{"ErRangeNotIncreasingError", errs.ErRangeNotIncreasingError, 1493},
	{"ErInconsistentTypeOfFunctionsError", errs.ErInconsistentTypeOfFunctionsError, 1494},
	{"ErMultipleDefConstInListPartError", errs.ErMultipleDefConstInListPartError, 1495},
	{"ErPartitionEntryError", errs.ErPartitionEntryError, 1496},
	{"ErMixHandlerError", errs.ErMixHandlerError, 1497},
	{"ErPartitionNotDefinedError", errs.ErPartitionNotDefinedError, 1498},
	{"ErTooManyPartitionsError", errs.ErTooManyPartitionsError, 1499},
	{"ErSubpartitionError", errs.ErSubpartitionError, 1500},
	{"ErCantCreateHandlerFile", errs.ErCantCreateHandlerFile, 1501},
	{"ErBlobFieldInPartFuncError", errs.ErBlobFieldInPartFuncError, 1502},
	{"ErUniqueKeyNeedAllFieldsInPf", errs.ErUniqueKeyNeedAllFieldsInPf, 1503},
	{"ErNoPartsError", errs.ErNoPartsError, 1504},
	{"ErPartitionMgmtOnNonpartitioned", errs.ErPartitionMgmtOnNonpartitioned, 1505},
	{"ErForeignKeyOnPartitioned", errs.ErForeignKeyOnPartitioned, 1506},
	{"ErDropPartitionNonExistent", errs.ErDropPartitionNonExistent, 1507},
	{"ErDropLastPartition", errs.ErDropLastPartition, 1508},
	{"ErCoalesceOnlyOnHashPartition", errs.ErCoalesceOnlyOnHashPartition, 1509},
	{"ErReorgHashOnlyOnSameNo", errs.ErReorgHashOnlyOnSameNo, 1510},
	{"ErReorgNoParamError", errs.ErReorgNoParamError, 1511},
	{"ErOnlyOnRangeListPartition", errs.ErOnlyOnRangeListPartition, 1512},
	{"ErAddPartitionSubpartError", errs.ErAddPartitionSubpartError, 1513},
	{"ErAddPartitionNoNewPartition", errs.ErAddPartitionNoNewPartition, 1514},
	{"ErCoalescePartitionNoPartition", errs.ErCoalescePartitionNoPartition, 1515},
	{"ErReorgPartitionNotExist", errs.ErReorgPartitionNotExist, 1516},
	{"ErSameNamePartition", errs.ErSameNamePartition, 1517},
	{"ErNoBinlogError", errs.ErNoBinlogError, 1518},
	{"ErConsecutiveReorgPartitions", errs.ErConsecutiveReorgPartitions, 1519},
	{"ErReorgOutsideRange", errs.ErReorgOutsideRange, 1520},
	{"ErPartitionFunctionFailure", errs.ErPartitionFunctionFailure, 1521},
	{"ErPartStateError", errs.ErPartStateError, 1522},
	{"ErLimitedPartRange", errs.ErLimitedPartRange, 1523},
	{"ErPluginIsNotLoaded", errs.ErPluginIsNotLoaded, 1524},
	{"ErWrongValue", errs.ErWrongValue, 1525},
	{"ErNoPartitionForGivenValue", errs.ErNoPartitionForGivenValue, 1526},
	{"ErFilegroupOptionOnlyOnce", errs.ErFilegroupOptionOnlyOnce, 1527},
	{"ErCreateFilegroupFailed", errs.ErCreateFilegroupFailed, 1528},
	{"ErDropFilegroupFailed", errs.ErDropFilegroupFailed, 1529},
	{"ErTablespaceAutoExtendError", errs.ErTablespaceAutoExtendError, 1530},
	{"ErWrongSizeNumber", errs.ErWrongSizeNumber, 1531},
	{"ErSizeOverflowError", errs.ErSizeOverflowError, 1532},
	{"ErAlterFilegroupFailed", errs.ErAlterFilegroupFailed, 1533},
	{"ErBinlogRowLoggingFailed", errs.ErBinlogRowLoggingFailed, 1534},
	{"ErBinlogRowWrongTableDef", errs.ErBinlogRowWrongTableDef, 1535},
	{"ErBinlogRowRbrToSbr", errs.ErBinlogRowRbrToSbr, 1536},
	{"ErEventAlreadyExists", errs.ErEventAlreadyExists, 1537},
	{"ErEventStoreFailed", errs.ErEventStoreFailed, 1538},
	{"ErEventDoesNotExist", errs.ErEventDoesNotExist, 1539},
	{"ErEventCantAlter", errs.ErEventCantAlter, 1540},
	{"ErEventDropFailed", errs.ErEventDropFailed, 1541},
	{"ErEventIntervalNotPositiveOrTooBig", errs.ErEventIntervalNotPositiveOrTooBig, 1542},
	{"ErEventEndsBeforeStarts", errs.ErEventEndsBeforeStarts, 1543},
	{"ErEventExecTimeInThePast", errs.ErEventExecTimeInThePast, 1544},
	{"ErEventOpenTableFailed", errs.ErEventOpenTableFailed, 1545},
	{"ErEventNeitherMExprNorMAt", errs.ErEventNeitherMExprNorMAt, 1546},
	{"ErObsoleteColCountDoesntMatchCorrupted", errs.ErObsoleteColCountDoesntMatchCorrupted, 1547},
	{"ErObsoleteCannotLoadFromTable", errs.ErObsoleteCannotLoadFromTable, 1548},
	{"ErEventCannotDelete", errs.ErEventCannotDelete, 1549},
	{"ErEventCompileError", errs.ErEventCompileError, 1550},
	{"ErEventSameName", errs.ErEventSameName, 1551},
	{"ErEventDataTooLong", errs.ErEventDataTooLong, 1552},
	{"ErDropIndexFk", errs.ErDropIndexFk, 1553},
	{"ErWarnDeprecatedSyntaxWithVer", errs.ErWarnDeprecatedSyntaxWithVer, 1554},
	{"ErCantWriteLockLogTable", errs.ErCantWriteLockLogTable, 1555},
	{"ErCantLockLogTable", errs.ErCantLockLogTable, 1556},
	{"ErForeignDuplicateKeyOldUnused", errs.ErForeignDuplicateKeyOldUnused, 1557},
	{"ErColCountDoesntMatchPleaseUpdate", errs.ErColCountDoesntMatchPleaseUpdate, 1558},
	{"ErTempTablePreventsSwitchOutOfRbr", errs.ErTempTablePreventsSwitchOutOfRbr, 1559},
	{"ErStoredFunctionPreventsSwitchBinlogFormat", errs.ErStoredFunctionPreventsSwitchBinlogFormat, 1560},
	{"ErNdbCantSwitchBinlogFormat", errs.ErNdbCantSwitchBinlogFormat, 1561},
	{"ErPartitionNoTemporary", errs.ErPartitionNoTemporary, 1562},
	{"ErPartitionConstDomainError", errs.ErPartitionConstDomainError, 1563},
	{"ErPartitionFunctionIsNotAllowed", errs.ErPartitionFunctionIsNotAllowed, 1564},
	{"ErDdlLogError", errs.ErDdlLogError, 1565},
	{"ErNullInValuesLessThan", errs.ErNullInValuesLessThan, 1566},
	{"ErWrongPartitionName", errs.ErWrongPartitionName, 1567},
	{"ErCantChangeTxCharacteristics", errs.ErCantChangeTxCharacteristics, 1568},
	{"ErDupEntryAutoincrementCase", errs.ErDupEntryAutoincrementCase, 1569},
	{"ErEventModifyQueueError", errs.ErEventModifyQueueError, 1570},
	{"ErEventSetVarError", errs.ErEventSetVarError, 1571},
	{"ErPartitionMergeError", errs.ErPartitionMergeError, 1572},
	{"ErCantActivateLog", errs.ErCantActivateLog, 1573},
	{"ErRbrNotAvailable", errs.ErRbrNotAvailable, 1574},
	{"ErBase64DecodeError", errs.ErBase64DecodeError, 1575},
	{"ErEventRecursionForbidden", errs.ErEventRecursionForbidden, 1576},
	{"ErEventsDbError", errs.ErEventsDbError, 1577},
	{"ErOnlyIntegersAllowed", errs.ErOnlyIntegersAllowed, 1578},
	{"ErUnsuportedLogEngine", errs.ErUnsuportedLogEngine, 1579},
	{"ErBadLogStatement", errs.ErBadLogStatement, 1580},
	{"ErCantRenameLogTable", errs.ErCantRenameLogTable, 1581},
	{"ErWrongParamcountToNativeFct", errs.ErWrongParamcountToNativeFct, 1582},
	{"ErWrongParametersToNativeFct", errs.ErWrongParametersToNativeFct, 1583},
	{"ErWrongParametersToStoredFct", errs.ErWrongParametersToStoredFct, 1584},
	{"ErNativeFctNameCollision", errs.ErNativeFctNameCollision, 1585},
	{"ErDupEntryWithKeyName", errs.ErDupEntryWithKeyName, 1586},
	{"ErBinlogPurgeEmfile", errs.ErBinlogPurgeEmfile, 1587},
	{"ErEventCannotCreateInThePast", errs.ErEventCannotCreateInThePast, 1588},
	{"ErEventCannotAlterInThePast", errs.ErEventCannotAlterInThePast, 1589},
	{"ErSlaveIncident", errs.ErSlaveIncident, 1590},
	{"ErNoPartitionForGivenValueSilent", errs.ErNoPartitionForGivenValueSilent, 1591},
	{"ErBinlogUnsafeStatement", errs.ErBinlogUnsafeStatement, 1592},
	{"ErSlaveFatalError", errs.ErSlaveFatalError, 1593},
	{"ErSlaveRelayLogReadFailure", errs.ErSlaveRelayLogReadFailure, 1594},
	{"ErSlaveRelayLogWriteFailure", errs.ErSlaveRelayLogWriteFailure, 1595},
	{"ErSlaveCreateEventFailure", errs.ErSlaveCreateEventFailure, 1596},
	{"ErSlaveMasterComFailure", errs.ErSlaveMasterComFailure, 1597},
	{"ErBinlogLoggingImpossible", errs.ErBinlogLoggingImpossible, 1598},
	{"ErViewNoCreationCtx", errs.ErViewNoCreationCtx, 1599},
	{"ErViewInvalidCreationCtx", errs.ErViewInvalidCreationCtx, 1600},
	{"ErSrInvalidCreationCtx", errs.ErSrInvalidCreationCtx, 1601},
	{"ErTrgCorruptedFile", errs.ErTrgCorruptedFile, 1602},
	{"ErTrgNoCreationCtx", errs.ErTrgNoCreationCtx, 1603},
	{"ErTrgInvalidCreationCtx", errs.ErTrgInvalidCreationCtx, 1604},
	{"ErEventInvalidCreationCtx", errs.ErEventInvalidCreationCtx, 1605},
	{"ErTrgCantOpenTable", errs.ErTrgCantOpenTable, 1606},
	{"ErCantCreateSroutine", errs.ErCantCreateSroutine, 1607},
	{"ErNeverUsed", errs.ErNeverUsed, 1608},
	{"ErNoFormatDescriptionEventBeforeBinlogStatement", errs.ErNoFormatDescriptionEventBeforeBinlogStatement, 1609},
	{"ErSlaveCorruptEvent", errs.ErSlaveCorruptEvent, 1610},
	{"ErLoadDataInvalidColumnUnused", errs.ErLoadDataInvalidColumnUnused, 1611},
	{"ErLogPurgeNoFile", errs.ErLogPurgeNoFile, 1612},
	{"ErXaRbtimeout", errs.ErXaRbtimeout, 1613},
	{"ErXaRbdeadlock", errs.ErXaRbdeadlock, 1614},
	{"ErNeedReprepare", errs.ErNeedReprepare, 1615},
	{"ErDelayedNotSupported", errs.ErDelayedNotSupported, 1616},
	{"WARNNoMasterInfo", errs.WARNNoMasterInfo, 1617},
	{"WARNOptionIgnored", errs.WARNOptionIgnored, 1618},
	{"ErPluginDeleteBuiltin", errs.ErPluginDeleteBuiltin, 1619},
	{"WARNPluginBusy", errs.WARNPluginBusy, 1620},
	{"ErVariableIsReadonly", errs.ErVariableIsReadonly, 1621},
	{"ErWarnEngineTransactionRollback", errs.ErWarnEngineTransactionRollback, 1622},
	{"ErSlaveHeartbeatFailure", errs.ErSlaveHeartbeatFailure, 1623},
	{"ErSlaveHeartbeatValueOutOfRange", errs.ErSlaveHeartbeatValueOutOfRange, 1624},
	{"ErNdbReplicationSchemaError", errs.ErNdbReplicationSchemaError, 1625},
	{"ErConflictFnParseError", errs.ErConflictFnParseError, 1626},
	{"ErExceptionsWriteError", errs.ErExceptionsWriteError, 1627},
	{"ErTooLongTableComment", errs.ErTooLongTableComment, 1628},
	{"ErTooLongFieldComment", errs.ErTooLongFieldComment, 1629},
	{"ErFuncInexistentNameCollision", errs.ErFuncInexistentNameCollision, 1630},
	{"ErDatabaseName", errs.ErDatabaseName, 1631},
	{"ErTableName", errs.ErTableName, 1632},
	{"ErPartitionName", errs.ErPartitionName, 1633},
	{"ErSubpartitionName", errs.ErSubpartitionName, 1634},
	{"ErTemporaryName", errs.ErTemporaryName, 1635},
	{"ErRenamedName", errs.ErRenamedName, 1636},
	{"ErTooManyConcurrentTrxs", errs.ErTooManyConcurrentTrxs, 1637},
	{"WarnNonASCIISeparatorNotImplemented", errs.WarnNonASCIISeparatorNotImplemented, 1638},
	{"ErDebugSyncTimeout", errs.ErDebugSyncTimeout, 1639},
	{"ErDebugSyncHitLimit", errs.ErDebugSyncHitLimit, 1640},
	{"ErDupSignalSet", errs.ErDupSignalSet, 1641},
	{"ErSignalWarn", errs.ErSignalWarn, 1642},
	{"ErSignalNotFound", errs.ErSignalNotFound, 1643},
	{"ErSignalException", errs.ErSignalException, 1644},
	{"ErResignalWithoutActiveHandler", errs.ErResignalWithoutActiveHandler, 1645},
	{"ErSignalBadConditionType", errs.ErSignalBadConditionType, 1646},
	{"WarnCondItemTruncated", errs.WarnCondItemTruncated, 1647},
	{"ErCondItemTooLong", errs.ErCondItemTooLong, 1648},
	{"ErUnknownLocale", errs.ErUnknownLocale, 1649},
	{"ErSlaveIgnoreServerIds", errs.ErSlaveIgnoreServerIds, 1650},
	{"ErQueryCacheDisabled", errs.ErQueryCacheDisabled, 1651},
	{"ErSameNamePartitionField", errs.ErSameNamePartitionField, 1652},
	{"ErPartitionColumnListError", errs.ErPartitionColumnListError, 1653},
	{"ErWrongTypeColumnValueError", errs.ErWrongTypeColumnValueError, 1654},
	{"ErTooManyPartitionFuncFieldsError", errs.ErTooManyPartitionFuncFieldsError, 1655},
	{"ErMaxvalueInValuesIn", errs.ErMaxvalueInValuesIn, 1656},
	{"ErTooManyValuesError", errs.ErTooManyValuesError, 1657},
	{"ErRowSinglePartitionFieldError", errs.ErRowSinglePartitionFieldError, 1658},
	{"ErFieldTypeNotAllowedAsPartitionField", errs.ErFieldTypeNotAllowedAsPartitionField, 1659},
	{"ErPartitionFieldsTooLong", errs.ErPartitionFieldsTooLong, 1660},
	{"ErBinlogRowEngineAndStmtEngine", errs.ErBinlogRowEngineAndStmtEngine, 1661},
	{"ErBinlogRowModeAndStmtEngine", errs.ErBinlogRowModeAndStmtEngine, 1662},
	{"ErBinlogUnsafeAndStmtEngine", errs.ErBinlogUnsafeAndStmtEngine, 1663},
	{"ErBinlogRowInjectionAndStmtEngine", errs.ErBinlogRowInjectionAndStmtEngine, 1664},
	{"ErBinlogStmtModeAndRowEngine", errs.ErBinlogStmtModeAndRowEngine, 1665},
	{"ErBinlogRowInjectionAndStmtMode", errs.ErBinlogRowInjectionAndStmtMode, 1666},
	{"ErBinlogMultipleEnginesAndSelfLoggingEngine", errs.ErBinlogMultipleEnginesAndSelfLoggingEngine, 1667},
	{"ErBinlogUnsafeLimit", errs.ErBinlogUnsafeLimit, 1668},
	{"ErUnused4", errs.ErUnused4, 1669},
	{"ErBinlogUnsafeSystemTable", errs.ErBinlogUnsafeSystemTable, 1670},
	{"ErBinlogUnsafeAutoincColumns", errs.ErBinlogUnsafeAutoincColumns, 1671},
	{"ErBinlogUnsafeUdf", errs.ErBinlogUnsafeUdf, 1672},
	{"ErBinlogUnsafeSystemVariable", errs.ErBinlogUnsafeSystemVariable, 1673},
	{"ErBinlogUnsafeSystemFunction", errs.ErBinlogUnsafeSystemFunction, 1674},
	{"ErBinlogUnsafeNontransAfterTrans", errs.ErBinlogUnsafeNontransAfterTrans, 1675},
	{"ErMessageAndStatement", errs.ErMessageAndStatement, 1676},
	{"ErSlaveConversionFailed", errs.ErSlaveConversionFailed, 1677},
	{"ErSlaveCantCreateConversion", errs.ErSlaveCantCreateConversion, 1678},
	{"ErInsideTransactionPreventsSwitchBinlogFormat", errs.ErInsideTransactionPreventsSwitchBinlogFormat, 1679},
	{"ErPathLength", errs.ErPathLength, 1680},
	{"ErWarnDeprecatedSyntaxNoReplacement", errs.ErWarnDeprecatedSyntaxNoReplacement, 1681},
	{"ErWrongNativeTableStructure", errs.ErWrongNativeTableStructure, 1682},
	{"ErWrongPerfschemaUsage", errs.ErWrongPerfschemaUsage, 1683},
	{"ErWarnISSkippedTable", errs.ErWarnISSkippedTable, 1684},
	{"ErInsideTransactionPreventsSwitchBinlogDirect", errs.ErInsideTransactionPreventsSwitchBinlogDirect, 1685},
	{"ErStoredFunctionPreventsSwitchBinlogDirect", errs.ErStoredFunctionPreventsSwitchBinlogDirect, 1686},
	{"ErSpatialMustHaveGeomCol", errs.ErSpatialMustHaveGeomCol, 1687},
	{"ErTooLongIndexComment", errs.ErTooLongIndexComment, 1688},
	{"ErLockAborted", errs.ErLockAborted, 1689},
	{"ErDataOutOfRange", errs.ErDataOutOfRange, 1690},
	{"ErWrongSpvarTypeInLimit", errs.ErWrongSpvarTypeInLimit, 1691},
	{"ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine", errs.ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine, 1692},
	{"ErBinlogUnsafeMixedStatement", errs.ErBinlogUnsafeMixedStatement, 1693},
	{"ErInsideTransactionPreventsSwitchSQLLogBin", errs.ErInsideTransactionPreventsSwitchSQLLogBin, 1694},
	{"ErStoredFunctionPreventsSwitchSQLLogBin", errs.ErStoredFunctionPreventsSwitchSQLLogBin, 1695},
	{"ErFailedReadFromParFile", errs.ErFailedReadFromParFile, 1696},
	{"ErValuesIsNotIntTypeError", errs.ErValuesIsNotIntTypeError, 1697},
	{"ErAccessDeniedNoPasswordError", errs.ErAccessDeniedNoPasswordError, 1698},
	{"ErSetPasswordAuthPlugin", errs.ErSetPasswordAuthPlugin, 1699},
	{"ErGrantPluginUserExists", errs.ErGrantPluginUserExists, 1700},
	{"ErTruncateIllegalFk", errs.ErTruncateIllegalFk, 1701},
	{"ErPluginIsPermanent", errs.ErPluginIsPermanent, 1702},
	{"ErSlaveHeartbeatValueOutOfRangeMin", errs.ErSlaveHeartbeatValueOutOfRangeMin, 1703},
	{"ErSlaveHeartbeatValueOutOfRangeMax", errs.ErSlaveHeartbeatValueOutOfRangeMax, 1704},
	{"ErStmtCacheFull", errs.ErStmtCacheFull, 1705},
	{"ErMultiUpdateKeyConflict", errs.ErMultiUpdateKeyConflict, 1706},
	{"ErTableNeedsRebuild", errs.ErTableNeedsRebuild, 1707},
	{"WARNOptionBelowLimit", errs.WARNOptionBelowLimit, 1708},
	{"ErIndexColumnTooLong", errs.ErIndexColumnTooLong, 1709},
	{"ErErrorInTriggerBody", errs.ErErrorInTriggerBody, 1710},
	{"ErErrorInUnknownTriggerBody", errs.ErErrorInUnknownTriggerBody, 1711},
	{"ErIndexCorrupt", errs.ErIndexCorrupt, 1712},
	{"ErUndoRecordTooBig", errs.ErUndoRecordTooBig, 1713},
	{"ErBinlogUnsafeInsertIgnoreSelect", errs.ErBinlogUnsafeInsertIgnoreSelect, 1714},
	{"ErBinlogUnsafeInsertSelectUpdate", errs.ErBinlogUnsafeInsertSelectUpdate, 1715},
	{"ErBinlogUnsafeReplaceSelect", errs.ErBinlogUnsafeReplaceSelect, 1716},
	{"ErBinlogUnsafeCreateIgnoreSelect", errs.ErBinlogUnsafeCreateIgnoreSelect, 1717},
	{"ErBinlogUnsafeCreateReplaceSelect", errs.ErBinlogUnsafeCreateReplaceSelect, 1718},
	{"ErBinlogUnsafeUpdateIgnore", errs.ErBinlogUnsafeUpdateIgnore, 1719},
	{"ErPluginNoUninstall", errs.ErPluginNoUninstall, 1720},
	{"ErPluginNoInstall", errs.ErPluginNoInstall, 1721},
	{"ErBinlogUnsafeWriteAutoincSelect", errs.ErBinlogUnsafeWriteAutoincSelect, 1722},
	{"ErBinlogUnsafeCreateSelectAutoinc", errs.ErBinlogUnsafeCreateSelectAutoinc, 1723},
	{"ErBinlogUnsafeInsertTwoKeys", errs.ErBinlogUnsafeInsertTwoKeys, 1724},
	{"ErTableInFkCheck", errs.ErTableInFkCheck, 1725},
	{"ErUnsupportedEngine", errs.ErUnsupportedEngine, 1726},
	{"ErBinlogUnsafeAutoincNotFirst", errs.ErBinlogUnsafeAutoincNotFirst, 1727},
	{"ErCannotLoadFromTableV2", errs.ErCannotLoadFromTableV2, 1728},
	{"ErMasterDelayValueOutOfRange", errs.ErMasterDelayValueOutOfRange, 1729},
	{"ErOnlyFdAndRbrEventsAllowedInBinlogStatement", errs.ErOnlyFdAndRbrEventsAllowedInBinlogStatement, 1730},
	{"ErPartitionExchangeDifferentOption", errs.ErPartitionExchangeDifferentOption, 1731},
	{"ErPartitionExchangePartTable", errs.ErPartitionExchangePartTable, 1732},
	{"ErPartitionExchangeTempTable", errs.ErPartitionExchangeTempTable, 1733},
	{"ErPartitionInsteadOfSubpartition", errs.ErPartitionInsteadOfSubpartition, 1734},
	{"ErUnknownPartition", errs.ErUnknownPartition, 1735},
	{"ErTablesDifferentMetadata", errs.ErTablesDifferentMetadata, 1736},
	{"ErRowDoesNotMatchPartition", errs.ErRowDoesNotMatchPartition, 1737},
	{"ErBinlogCacheSizeGreaterThanMax", errs.ErBinlogCacheSizeGreaterThanMax, 1738},
	{"ErWarnIndexNotApplicable", errs.ErWarnIndexNotApplicable, 1739},
	{"ErPartitionExchangeForeignKey", errs.ErPartitionExchangeForeignKey, 1740},
	{"ErNoSuchKeyValue", errs.ErNoSuchKeyValue, 1741},
	{"ErRplInfoDataTooLong", errs.ErRplInfoDataTooLong, 1742},
	{"ErNetworkReadEventChecksumFailure", errs.ErNetworkReadEventChecksumFailure, 1743},
	{"ErBinlogReadEventChecksumFailure", errs.ErBinlogReadEventChecksumFailure, 1744},
	{"ErBinlogStmtCacheSizeGreaterThanMax", errs.ErBinlogStmtCacheSizeGreaterThanMax, 1745},
	{"ErCantUpdateTableInCreateTableSelect", errs.ErCantUpdateTableInCreateTableSelect, 1746},
	{"ErPartitionClauseOnNonpartitioned", errs.ErPartitionClauseOnNonpartitioned, 1747},
	{"ErRowDoesNotMatchGivenPartitionSet", errs.ErRowDoesNotMatchGivenPartitionSet, 1748},
	{"ErNoSuchPartitionUnused", errs.ErNoSuchPartitionUnused, 1749},
	{"ErChangeRplInfoRepositoryFailure", errs.ErChangeRplInfoRepositoryFailure, 1750},
	{"ErWarningNotCompleteRollbackWithCreatedTempTable", errs.ErWarningNotCompleteRollbackWithCreatedTempTable, 1751},
	{"ErWarningNotCompleteRollbackWithDroppedTempTable", errs.ErWarningNotCompleteRollbackWithDroppedTempTable, 1752},
	{"ErMtsFeatureIsNotSupported", errs.ErMtsFeatureIsNotSupported, 1753},
	{"ErMtsUpdatedDbsGreaterMax", errs.ErMtsUpdatedDbsGreaterMax, 1754},
	{"ErMtsCantParallel", errs.ErMtsCantParallel, 1755},
	{"ErMtsInconsistentData", errs.ErMtsInconsistentData, 1756},
	{"ErFulltextNotSupportedWithPartitioning", errs.ErFulltextNotSupportedWithPartitioning, 1757},
	{"ErDaInvalidConditionNumber", errs.ErDaInvalidConditionNumber, 1758},
	{"ErInsecurePlainText", errs.ErInsecurePlainText, 1759},
	{"ErInsecureChangeMaster", errs.ErInsecureChangeMaster, 1760},
	{"ErForeignDuplicateKeyWithChildInfo", errs.ErForeignDuplicateKeyWithChildInfo, 1761},
	{"ErForeignDuplicateKeyWithoutChildInfo", errs.ErForeignDuplicateKeyWithoutChildInfo, 1762},
	{"ErSqlthreadWithSecureSlave", errs.ErSqlthreadWithSecureSlave, 1763},
	{"ErTableHasNoFt", errs.ErTableHasNoFt, 1764},
	{"ErVariableNotSettableInSfOrTrigger", errs.ErVariableNotSettableInSfOrTrigger, 1765},
	{"ErVariableNotSettableInTransaction", errs.ErVariableNotSettableInTransaction, 1766},
	{"ErGTIDNextIsNotInGTIDNextList", errs.ErGTIDNextIsNotInGTIDNextList, 1767},
	{"ErCantChangeGTIDNextInTransaction", errs.ErCantChangeGTIDNextInTransaction, 1768},
	{"ErSetStatementCannotInvokeFunction", errs.ErSetStatementCannotInvokeFunction, 1769},
	{"ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull", errs.ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull, 1770},
	{"ErSkippingLoggedTransaction", errs.ErSkippingLoggedTransaction, 1771},
	{"ErMalformedGTIDSetSpecification", errs.ErMalformedGTIDSetSpecification, 1772},
	{"ErMalformedGTIDSetEncoding", errs.ErMalformedGTIDSetEncoding, 1773},
	{"ErMalformedGTIDSpecification", errs.ErMalformedGTIDSpecification, 1774},
	{"ErGnoExhausted", errs.ErGnoExhausted, 1775},
	{"ErBadSlaveAutoPosition", errs.ErBadSlaveAutoPosition, 1776},
	{"ErAutoPositionRequiresGTIDModeNotOff", errs.ErAutoPositionRequiresGTIDModeNotOff, 1777},
	{"ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet", errs.ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet, 1778},
	{"ErGTIDModeOnRequiresEnforceGTIDConsistencyOn", errs.ErGTIDModeOnRequiresEnforceGTIDConsistencyOn, 1779},
	{"ErGTIDModeRequiresBinlog", errs.ErGTIDModeRequiresBinlog, 1780},
	{"ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff", errs.ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff, 1781},
	{"ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn", errs.ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn, 1782},
	{"ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff", errs.ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff, 1783},
	{"ErFoundGTIDEventWhenGTIDModeIsOffUnused", errs.ErFoundGTIDEventWhenGTIDModeIsOffUnused, 1784},
	{"ErGTIDUnsafeNonTransactionalTable", errs.ErGTIDUnsafeNonTransactionalTable, 1785},
	{"ErGTIDUnsafeCreateSelect", errs.ErGTIDUnsafeCreateSelect, 1786},
	{"ErGTIDUnsafeCreateDropTemporaryTableInTransaction", errs.ErGTIDUnsafeCreateDropTemporaryTableInTransaction, 1787},
	{"ErGTIDModeCanOnlyChangeOneStepAtATime", errs.ErGTIDModeCanOnlyChangeOneStepAtATime, 1788},
	{"ErMasterHasPurgedRequiredGTIDs", errs.ErMasterHasPurgedRequiredGTIDs, 1789},
	{"ErCantSetGTIDNextWhenOwningGTID", errs.ErCantSetGTIDNextWhenOwningGTID, 1790},
	{"ErUnknownExplainFormat", errs.ErUnknownExplainFormat, 1791},
	{"ErCantExecuteInReadOnlyTransaction", errs.ErCantExecuteInReadOnlyTransaction, 1792},
	{"ErTooLongTablePartitionComment", errs.ErTooLongTablePartitionComment, 1793},
	{"ErSlaveConfiguration", errs.ErSlaveConfiguration, 1794},
	{"ErInnodbFtLimit", errs.ErInnodbFtLimit, 1795},
	{"ErInnodbNoFtTempTable", errs.ErInnodbNoFtTempTable, 1796},
	{"ErInnodbFtWrongDocidColumn", errs.ErInnodbFtWrongDocidColumn, 1797},
	{"ErInnodbFtWrongDocidIndex", errs.ErInnodbFtWrongDocidIndex, 1798},
	{"ErInnodbOnlineLogTooBig", errs.ErInnodbOnlineLogTooBig, 1799},
	{"ErUnknownAlterAlgorithm", errs.ErUnknownAlterAlgorithm, 1800},
	{"ErUnknownAlterLock", errs.ErUnknownAlterLock, 1801},
	{"ErMtsChangeMasterCantRunWithGaps", errs.ErMtsChangeMasterCantRunWithGaps, 1802},
	{"ErMtsRecoveryFailure", errs.ErMtsRecoveryFailure, 1803},
	{"ErMtsResetWorkers", errs.ErMtsResetWorkers, 1804},
	{"ErColCountDoesntMatchCorruptedV2", errs.ErColCountDoesntMatchCorruptedV2, 1805},
	{"ErSlaveSilentRetryTransaction", errs.ErSlaveSilentRetryTransaction, 1806},
	{"ErDiscardFkChecksRunning", errs.ErDiscardFkChecksRunning, 1807},
	{"ErTableSchemaMismatch", errs.ErTableSchemaMismatch, 1808},
	{"ErTableInSystemTablespace", errs.ErTableInSystemTablespace, 1809},
	{"ErIoReadError", errs.ErIoReadError, 1810},
	{"ErIoWriteError", errs.ErIoWriteError, 1811},
	{"ErTablespaceMissing", errs.ErTablespaceMissing, 1812},
	{"ErTablespaceExists", errs.ErTablespaceExists, 1813},
	{"ErTablespaceDiscarded", errs.ErTablespaceDiscarded, 1814},
	{"ErInternalError", errs.ErInternalError, 1815},
	{"ErInnodbImportError", errs.ErInnodbImportError, 1816},
	{"ErInnodbIndexCorrupt", errs.ErInnodbIndexCorrupt, 1817},
	{"ErInvalidYearColumnLength", errs.ErInvalidYearColumnLength, 1818},
	{"ErNotValidPassword", errs.ErNotValidPassword, 1819},
	{"ErMustChangePassword", errs.ErMustChangePassword, 1820},
	{"ErFkNoIndexChild", errs.ErFkNoIndexChild, 1821},
	{"ErFkNoIndexParent", errs.ErFkNoIndexParent, 1822},
	{"ErFkFailAddSystem", errs.ErFkFailAddSystem, 1823},
	{"ErFkCannotOpenParent", errs.ErFkCannotOpenParent, 1824},
	{"ErFkIncorrectOption", errs.ErFkIncorrectOption, 1825},
	{"ErFkDupName", errs.ErFkDupName, 1826},
	{"ErPasswordFormat", errs.ErPasswordFormat, 1827},
	{"ErFkColumnCannotDrop", errs.ErFkColumnCannotDrop, 1828},
	{"ErFkColumnCannotDropChild", errs.ErFkColumnCannotDropChild, 1829},
	{"ErFkColumnNotNull", errs.ErFkColumnNotNull, 1830},
	{"ErDupIndex", errs.ErDupIndex, 1831},
	{"ErFkColumnCannotChange", errs.ErFkColumnCannotChange, 1832},
	{"ErFkColumnCannotChangeChild", errs.ErFkColumnCannotChangeChild, 1833},
	{"ErUnused5", errs.ErUnused5, 1834},
	{"ErMalformedPacket", errs.ErMalformedPacket, 1835},
	{"ErReadOnlyMode", errs.ErReadOnlyMode, 1836},
	{"ErGTIDNextTypeUndefinedGroup", errs.ErGTIDNextTypeUndefinedGroup, 1837},
	{"ErVariableNotSettableInSp", errs.ErVariableNotSettableInSp, 1838},
	{"ErCantSetGTIDPurgedWhenGTIDModeIsOff", errs.ErCantSetGTIDPurgedWhenGTIDModeIsOff, 1839},
	{"ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty", errs.ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty, 1840},
	{"ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty", errs.ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty, 1841},
	{"ErGTIDPurgedWasChanged", errs.ErGTIDPurgedWasChanged, 1842},
	{"ErGTIDExecutedWasChanged", errs.ErGTIDExecutedWasChanged, 1843},
	{"ErBinlogStmtModeAndNoReplTables", errs.ErBinlogStmtModeAndNoReplTables, 1844},
	{"ErAlterOperationNotSupported", errs.ErAlterOperationNotSupported, 1845},
	{"ErAlterOperationNotSupportedReason", errs.ErAlterOperationNotSupportedReason, 1846},
	{"ErAlterOperationNotSupportedReasonCopy", errs.ErAlterOperationNotSupportedReasonCopy, 1847},
	{"ErAlterOperationNotSupportedReasonPartition", errs.ErAlterOperationNotSupportedReasonPartition, 1848},
	{"ErAlterOperationNotSupportedReasonFkRename", errs.ErAlterOperationNotSupportedReasonFkRename, 1849},
	{"ErAlterOperationNotSupportedReasonColumnType", errs.ErAlterOperationNotSupportedReasonColumnType, 1850},
	{"ErAlterOperationNotSupportedReasonFkCheck", errs.ErAlterOperationNotSupportedReasonFkCheck, 1851},
	{"ErUnused6", errs.ErUnused6, 1852},
	{"ErAlterOperationNotSupportedReasonNopk", errs.ErAlterOperationNotSupportedReasonNopk, 1853},
	{"ErAlterOperationNotSupportedReasonAutoinc", errs.ErAlterOperationNotSupportedReasonAutoinc, 1854},
	{"ErAlterOperationNotSupportedReasonHiddenFts", errs.ErAlterOperationNotSupportedReasonHiddenFts, 1855},
	{"ErAlterOperationNotSupportedReasonChangeFts", errs.ErAlterOperationNotSupportedReasonChangeFts, 1856},
	{"ErAlterOperationNotSupportedReasonFts", errs.ErAlterOperationNotSupportedReasonFts, 1857},
	{"ErSQLSlaveSkipCounterNotSettableInGTIDMode", errs.ErSQLSlaveSkipCounterNotSettableInGTIDMode, 1858},
	{"ErDupUnknownInIndex", errs.ErDupUnknownInIndex, 1859},
	{"ErIdentCausesTooLongPath", errs.ErIdentCausesTooLongPath, 1860},
	{"ErAlterOperationNotSupportedReasonNotNull", errs.ErAlterOperationNotSupportedReasonNotNull, 1861},
	{"ErMustChangePasswordLogin", errs.ErMustChangePasswordLogin, 1862},
	{"ErRowInWrongPartition", errs.ErRowInWrongPartition, 1863},
	{"ErMtsEventBiggerPendingJobsSizeMax", errs.ErMtsEventBiggerPendingJobsSizeMax, 1864},
	{"ErInnodbNoFtUsesParser", errs.ErInnodbNoFtUsesParser, 1865},
	{"ErBinlogLogicalCorruption", errs.ErBinlogLogicalCorruption, 1866},
	{"ErWarnPurgeLogInUse", errs.ErWarnPurgeLogInUse, 1867},
	{"ErWarnPurgeLogIsActive", errs.ErWarnPurgeLogIsActive, 1868},
	{"ErAutoIncrementConflict", errs.ErAutoIncrementConflict, 1869},
	{"WARNOnBlockholeInRbr", errs.WARNOnBlockholeInRbr, 1870},
	{"ErSlaveMiInitRepository", errs.ErSlaveMiInitRepository, 1871},
	{"ErSlaveRliInitRepository", errs.ErSlaveRliInitRepository, 1872},
	{"ErAccessDeniedChangeUserError", errs.ErAccessDeniedChangeUserError, 1873},
	{"ErInnodbReadOnly", errs.ErInnodbReadOnly, 1874},
	{"ErStopSlaveSQLThreadTimeout", errs.ErStopSlaveSQLThreadTimeout, 1875},
	{"ErStopSlaveIoThreadTimeout", errs.ErStopSlaveIoThreadTimeout, 1876},
	{"ErTableCorrupt", errs.ErTableCorrupt, 1877},
	{"ErTempFileWriteFailure", errs.ErTempFileWriteFailure, 1878},
	{"ErInnodbFtAuxNotHexID", errs.ErInnodbFtAuxNotHexID, 1879},
	{"ErOldTemporalsUpgraded", errs.ErOldTemporalsUpgraded, 1880},
	{"ErInnodbForcedRecovery", errs.ErInnodbForcedRecovery, 1881},
	{"ErAesInvalidIv", errs.ErAesInvalidIv, 1882},
	{"ErPluginCannotBeUninstalled", errs.ErPluginCannotBeUninstalled, 1883},
	{"ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup", errs.ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup, 1884},
	{"ErSlaveHasMoreGTIDsThanMaster", errs.ErSlaveHasMoreGTIDsThanMaster, 1885},
	{"ErFileCorrupt", errs.ErFileCorrupt, 3000},
	{"ErErrorOnMaster", errs.ErErrorOnMaster, 3001},
	{"ErInconsistentError", errs.ErInconsistentError, 3002},
	{"ErStorageEngineNotLoaded", errs.ErStorageEngineNotLoaded, 3003},
	{"ErGetStackedDaWithoutActiveHandler", errs.ErGetStackedDaWithoutActiveHandler, 3004},
	{"ErWarnLegacySyntaxConverted", errs.ErWarnLegacySyntaxConverted, 3005},
	{"ErBinlogUnsafeFulltextPlugin", errs.ErBinlogUnsafeFulltextPlugin, 3006},
	{"ErCannotDiscardTemporaryTable", errs.ErCannotDiscardTemporaryTable, 3007},
	{"ErFkDepthExceeded", errs.ErFkDepthExceeded, 3008},
	{"ErColCountDoesntMatchPleaseUpdateV2", errs.ErColCountDoesntMatchPleaseUpdateV2, 3009},
	{"ErWarnTriggerDoesntHaveCreated", errs.ErWarnTriggerDoesntHaveCreated, 3010},
	{"ErReferencedTrgDoesNotExist", errs.ErReferencedTrgDoesNotExist, 3011},
	{"ErExplainNotSupported", errs.ErExplainNotSupported, 3012},
	{"ErInvalidFieldSize", errs.ErInvalidFieldSize, 3013},
	{"ErMissingHaCreateOption", errs.ErMissingHaCreateOption, 3014},
	{"ErEngineOutOfMemory", errs.ErEngineOutOfMemory, 3015},
	{"ErPasswordExpireAnonymousUser", errs.ErPasswordExpireAnonymousUser, 3016},
	{"ErSlaveSQLThreadMustStop", errs.ErSlaveSQLThreadMustStop, 3017},
	{"ErNoFtMaterializedSubquery", errs.ErNoFtMaterializedSubquery, 3018},
	{"ErInnodbUndoLogFull", errs.ErInnodbUndoLogFull, 3019},
	{"ErInvalidArgumentForLogarithm", errs.ErInvalidArgumentForLogarithm, 3020},
	{"ErSlaveChannelIoThreadMustStop", errs.ErSlaveChannelIoThreadMustStop, 3021},
	{"ErWarnOpenTempTablesMustBeZero", errs.ErWarnOpenTempTablesMustBeZero, 3022},
	{"ErWarnOnlyMasterLogFileNoPos", errs.ErWarnOnlyMasterLogFileNoPos, 3023},
	{"ErQueryTimeout", errs.ErQueryTimeout, 3024},
	{"ErNonRoSelectDisableTimer", errs.ErNonRoSelectDisableTimer, 3025},
	{"ErDupListEntry", errs.ErDupListEntry, 3026},
	{"ErSQLModeNoEffect", errs.ErSQLModeNoEffect, 3027},
	{"ErAggregateOrderForUnion", errs.ErAggregateOrderForUnion, 3028},
	{"ErAggregateOrderNonAggQuery", errs.ErAggregateOrderNonAggQuery, 3029},
	{"ErSlaveWorkerStoppedPreviousThdError", errs.ErSlaveWorkerStoppedPreviousThdError, 3030},
	{"ErDontSupportSlavePreserveCommitOrder", errs.ErDontSupportSlavePreserveCommitOrder, 3031},
	{"ErServerOfflineMode", errs.ErServerOfflineMode, 3032},
	{"ErGisDifferentSrids", errs.ErGisDifferentSrids, 3033},
	{"ErGisUnsupportedArgument", errs.ErGisUnsupportedArgument, 3034},
	{"ErGisUnknownError", errs.ErGisUnknownError, 3035},
	{"ErGisUnknownException", errs.ErGisUnknownException, 3036},
	{"ErGisInvalidData", errs.ErGisInvalidData, 3037},
	{"ErBoostGeometryEmptyInputException", errs.ErBoostGeometryEmptyInputException, 3038},
	{"ErBoostGeometryCentroidException", errs.ErBoostGeometryCentroidException, 3039},
	{"ErBoostGeometryOverlayInvalidInputException", errs.ErBoostGeometryOverlayInvalidInputException, 3040},
	{"ErBoostGeometryTurnInfoException", errs.ErBoostGeometryTurnInfoException, 3041},
	{"ErBoostGeometrySelfIntersectionPointException", errs.ErBoostGeometrySelfIntersectionPointException, 3042},
	{"ErBoostGeometryUnknownException", errs.ErBoostGeometryUnknownException, 3043},
	{"ErStdBadAllocError", errs.ErStdBadAllocError, 3044},
	{"ErStdDomainError", errs.ErStdDomainError, 3045},
	{"ErStdLengthError", errs.ErStdLengthError, 3046},
	{"ErStdInvalidArgument", errs.ErStdInvalidArgument, 3047},
	{"ErStdOutOfRangeError", errs.ErStdOutOfRangeError, 3048},
	{"ErStdOverflowError", errs.ErStdOverflowError, 3049},
	{"ErStdRangeError", errs.ErStdRangeError, 3050},
	{"ErStdUnderflowError", errs.ErStdUnderflowError, 3051},
	{"ErStdLogicError", errs.ErStdLogicError, 3052},
	{"ErStdRuntimeError", errs.ErStdRuntimeError, 3053},
	{"ErStdUnknownException", errs.ErStdUnknownException, 3054},
	{"ErGisDataWrongEndianess", errs.ErGisDataWrongEndianess, 3055},
	{"ErChangeMasterPasswordLength", errs.ErChangeMasterPasswordLength, 3056},
	{"ErUserLockWrongName", errs.ErUserLockWrongName, 3057},
	{"ErUserLockDeadlock", errs.ErUserLockDeadlock, 3058},
	{"ErReplaceInaccessibleRows", errs.ErReplaceInaccessibleRows, 3059},
	{"ErAlterOperationNotSupportedReasonGis", errs.ErAlterOperationNotSupportedReasonGis, 3060},
	{"ErIllegalUserVar", errs.ErIllegalUserVar, 3061},
	{"ErGTIDModeOff", errs.ErGTIDModeOff, 3062},
	{"ErUnsupportedByReplicationThread", errs.ErUnsupportedByReplicationThread, 3063},
	{"ErIncorrectType", errs.ErIncorrectType, 3064},
	{"ErFieldInOrderNotSelect", errs.ErFieldInOrderNotSelect, 3065},
	{"ErAggregateInOrderNotSelect", errs.ErAggregateInOrderNotSelect, 3066},
	{"ErInvalidRplWildTableFilterPattern", errs.ErInvalidRplWildTableFilterPattern, 3067},
	{"ErNetOkPacketTooLarge", errs.ErNetOkPacketTooLarge, 3068},
	{"ErInvalidJSONData", errs.ErInvalidJSONData, 3069},
	{"ErInvalidGeojsonMissingMember", errs.ErInvalidGeojsonMissingMember, 3070},
	{"ErInvalidGeojsonWrongType", errs.ErInvalidGeojsonWrongType, 3071},
	{"ErInvalidGeojsonUnspecified", errs.ErInvalidGeojsonUnspecified, 3072},
	{"ErDimensionUnsupported", errs.ErDimensionUnsupported, 3073},
	{"ErSlaveChannelDoesNotExist", errs.ErSlaveChannelDoesNotExist, 3074},
	{"ErSlaveMultipleChannelsHostPort", errs.ErSlaveMultipleChannelsHostPort, 3075},
	{"ErSlaveChannelNameInvalidOrTooLong", errs.ErSlaveChannelNameInvalidOrTooLong, 3076},
	{"ErSlaveNewChannelWrongRepository", errs.ErSlaveNewChannelWrongRepository, 3077},
	{"ErSlaveChannelDelete", errs.ErSlaveChannelDelete, 3078},
	{"ErSlaveMultipleChannelsCmd", errs.ErSlaveMultipleChannelsCmd, 3079},
	{"ErSlaveMaxChannelsExceeded", errs.ErSlaveMaxChannelsExceeded, 3080},
	{"ErSlaveChannelMustStop", errs.ErSlaveChannelMustStop, 3081},
	{"ErSlaveChannelNotRunning", errs.ErSlaveChannelNotRunning, 3082},
	{"ErSlaveChannelWasRunning", errs.ErSlaveChannelWasRunning, 3083},
	{"ErSlaveChannelWasNotRunning", errs.ErSlaveChannelWasNotRunning, 3084},
	{"ErSlaveChannelSQLThreadMustStop", errs.ErSlaveChannelSQLThreadMustStop, 3085},
	{"ErSlaveChannelSQLSkipCounter", errs.ErSlaveChannelSQLSkipCounter, 3086},
	{"ErWrongFieldWithGroupV2", errs.ErWrongFieldWithGroupV2, 3087},
	{"ErMixOfGroupFuncAndFieldsV2", errs.ErMixOfGroupFuncAndFieldsV2, 3088},
	{"ErWarnDeprecatedSysvarUpdate", errs.ErWarnDeprecatedSysvarUpdate, 3089},
	{"ErWarnDeprecatedSqlmode", errs.ErWarnDeprecatedSqlmode, 3090},
	{"ErCannotLogPartialDropDatabaseWithGTID", errs.ErCannotLogPartialDropDatabaseWithGTID, 3091},
	{"ErGroupReplicationConfiguration", errs.ErGroupReplicationConfiguration, 3092},
	{"ErGroupReplicationRunning", errs.ErGroupReplicationRunning, 3093},
	{"ErGroupReplicationApplierInitError", errs.ErGroupReplicationApplierInitError, 3094},
	{"ErGroupReplicationStopApplierThreadTimeout", errs.ErGroupReplicationStopApplierThreadTimeout, 3095},
	{"ErGroupReplicationCommunicationLayerSessionError", errs.ErGroupReplicationCommunicationLayerSessionError, 3096},
	{"ErGroupReplicationCommunicationLayerJoinError", errs.ErGroupReplicationCommunicationLayerJoinError, 3097},
	{"ErBeforeDmlValidationError", errs.ErBeforeDmlValidationError, 3098},
	{"ErPreventsVariableWithoutRbr", errs.ErPreventsVariableWithoutRbr, 3099},
	{"ErRunHookError", errs.ErRunHookError, 3100},
	{"ErTransactionRollbackDuringCommit", errs.ErTransactionRollbackDuringCommit, 3101},
	{"ErGeneratedColumnFunctionIsNotAllowed", errs.ErGeneratedColumnFunctionIsNotAllowed, 3102},
	{"ErUnsupportedAlterInplaceOnVirtualColumn", errs.ErUnsupportedAlterInplaceOnVirtualColumn, 3103},
	{"ErWrongFkOptionForGeneratedColumn", errs.ErWrongFkOptionForGeneratedColumn, 3104},
	{"ErNonDefaultValueForGeneratedColumn", errs.ErNonDefaultValueForGeneratedColumn, 3105},
	{"ErUnsupportedActionOnGeneratedColumn", errs.ErUnsupportedActionOnGeneratedColumn, 3106},
	{"ErGeneratedColumnNonPrior", errs.ErGeneratedColumnNonPrior, 3107},
	{"ErDependentByGeneratedColumn", errs.ErDependentByGeneratedColumn, 3108},
	{"ErGeneratedColumnRefAutoInc", errs.ErGeneratedColumnRefAutoInc, 3109},
	{"ErFeatureNotAvailable", errs.ErFeatureNotAvailable, 3110},
	{"ErCantSetGTIDMode", errs.ErCantSetGTIDMode, 3111},
	{"ErCantUseAutoPositionWithGTIDModeOff", errs.ErCantUseAutoPositionWithGTIDModeOff, 3112},
	{"ErCantReplicateAnonymousWithAutoPosition", errs.ErCantReplicateAnonymousWithAutoPosition, 3113},
	{"ErCantReplicateAnonymousWithGTIDModeOn", errs.ErCantReplicateAnonymousWithGTIDModeOn, 3114},
	{"ErCantReplicateGTIDWithGTIDModeOff", errs.ErCantReplicateGTIDWithGTIDModeOff, 3115},
	{"ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions", errs.ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions, 3116},
	{"ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions", errs.ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions, 3117},
	{"ErAccountHasBeenLocked", errs.ErAccountHasBeenLocked, 3118},
	{"ErWrongTablespaceName", errs.ErWrongTablespaceName, 3119},
	{"ErTablespaceIsNotEmpty", errs.ErTablespaceIsNotEmpty, 3120},
	{"ErWrongFileName", errs.ErWrongFileName, 3121},
	{"ErBoostGeometryInconsistentTurnsException", errs.ErBoostGeometryInconsistentTurnsException, 3122},
	{"ErWarnOptimizerHintSyntaxError", errs.ErWarnOptimizerHintSyntaxError, 3123},
	{"ErWarnBadMaxExecutionTime", errs.ErWarnBadMaxExecutionTime, 3124},
	{"ErWarnUnsupportedMaxExecutionTime", errs.ErWarnUnsupportedMaxExecutionTime, 3125},
	{"ErWarnConflictingHint", errs.ErWarnConflictingHint, 3126},
	{"ErWarnUnknownQbName", errs.ErWarnUnknownQbName, 3127},
	{"ErUnresolvedHintName", errs.ErUnresolvedHintName, 3128},
	{"ErWarnOnModifyingGTIDExecutedTable", errs.ErWarnOnModifyingGTIDExecutedTable, 3129},
	{"ErPluggableProtocolCommandNotSupported", errs.ErPluggableProtocolCommandNotSupported, 3130},
	{"ErLockingServiceWrongName", errs.ErLockingServiceWrongName, 3131},
	{"ErLockingServiceDeadlock", errs.ErLockingServiceDeadlock, 3132},
	{"ErLockingServiceTimeout", errs.ErLockingServiceTimeout, 3133},
	{"ErGisMaxPointsInGeometryOverflowed", errs.ErGisMaxPointsInGeometryOverflowed, 3134},
	{"ErSQLModeMerged", errs.ErSQLModeMerged, 3135},
	{"ErVtokenPluginTokenMismatch", errs.ErVtokenPluginTokenMismatch, 3136},
	{"ErVtokenPluginTokenNotFound", errs.ErVtokenPluginTokenNotFound, 3137},
	{"ErCantSetVariableWhenOwningGTID", errs.ErCantSetVariableWhenOwningGTID, 3138},
	{"ErSlaveChannelOperationNotAllowed", errs.ErSlaveChannelOperationNotAllowed, 3139},
	{"ErInvalidJSONText", errs.ErInvalidJSONText, 3140},
	{"ErInvalidJSONTextInParam", errs.ErInvalidJSONTextInParam, 3141},
	{"ErInvalidJSONBinaryData", errs.ErInvalidJSONBinaryData, 3142},
	{"ErInvalidJSONPath", errs.ErInvalidJSONPath, 3143},
	{"ErInvalidJSONCharset", errs.ErInvalidJSONCharset, 3144},
	{"ErInvalidJSONCharsetInFunction", errs.ErInvalidJSONCharsetInFunction, 3145},
	{"ErInvalidTypeForJSON", errs.ErInvalidTypeForJSON, 3146},
	{"ErInvalidCastToJSON", errs.ErInvalidCastToJSON, 3147},
	{"ErInvalidJSONPathCharset", errs.ErInvalidJSONPathCharset, 3148},
	{"ErInvalidJSONPathWildcard", errs.ErInvalidJSONPathWildcard, 3149},
	{"ErJSONValueTooBig", errs.ErJSONValueTooBig, 3150},
	{"ErJSONKeyTooBig", errs.ErJSONKeyTooBig, 3151},
	{"ErJSONUsedAsKey", errs.ErJSONUsedAsKey, 3152},
	{"ErJSONVacuousPath", errs.ErJSONVacuousPath, 3153},
	{"ErJSONBadOneOrAllArg", errs.ErJSONBadOneOrAllArg, 3154},
	{"ErNumericJSONValueOutOfRange", errs.ErNumericJSONValueOutOfRange, 3155},
	{"ErInvalidJSONValueForCast", errs.ErInvalidJSONValueForCast, 3156},
	{"ErJSONDocumentTooDeep", errs.ErJSONDocumentTooDeep, 3157},
	{"ErJSONDocumentNullKey", errs.ErJSONDocumentNullKey, 3158},
	{"ErSecureTransportRequired", errs.ErSecureTransportRequired, 3159},
	{"ErNoSecureTransportsConfigured", errs.ErNoSecureTransportsConfigured, 3160},
	{"ErDisabledStorageEngine", errs.ErDisabledStorageEngine, 3161},
	{"ErUserDoesNotExist", errs.ErUserDoesNotExist, 3162},
	{"ErUserAlreadyExists", errs.ErUserAlreadyExists, 3163},
	{"ErAuditAPIAbort", errs.ErAuditAPIAbort, 3164},
	{"ErInvalidJSONPathArrayCell", errs.ErInvalidJSONPathArrayCell, 3165},
	{"ErBufpoolResizeInprogress", errs.ErBufpoolResizeInprogress, 3166},
	{"ErFeatureDisabledSeeDoc", errs.ErFeatureDisabledSeeDoc, 3167},
	{"ErServerIsntAvailable", errs.ErServerIsntAvailable, 3168},
	{"ErSessionWasKilled", errs.ErSessionWasKilled, 3169},
	{"ErCapacityExceeded", errs.ErCapacityExceeded, 3170},
	{"ErCapacityExceededInRangeOptimizer", errs.ErCapacityExceededInRangeOptimizer, 3171},
	{"ErTableNeedsUpgPart", errs.ErTableNeedsUpgPart, 3172},
	{"ErCantWaitForExecutedGTIDSetWhileOwningAGTID", errs.ErCantWaitForExecutedGTIDSetWhileOwningAGTID, 3173},
	{"ErCannotAddForeignBaseColVirtual", errs.ErCannotAddForeignBaseColVirtual, 3174},
	{"ErCannotCreateVirtualIndexConstraint", errs.ErCannotCreateVirtualIndexConstraint, 3175},
	{"ErErrorOnModifyingGTIDExecutedTable", errs.ErErrorOnModifyingGTIDExecutedTable, 3176},
	{"ErLockRefusedByEngine", errs.ErLockRefusedByEngine, 3177},
	{"ErUnsupportedAlterOnlineOnVirtualColumn", errs.ErUnsupportedAlterOnlineOnVirtualColumn, 3178},
	{"ErMasterKeyRotationNotSupportedBySe", errs.ErMasterKeyRotationNotSupportedBySe, 3179},
	{"ErMasterKeyRotationErrorBySe", errs.ErMasterKeyRotationErrorBySe, 3180},
	{"ErMasterKeyRotationBinlogFailed", errs.ErMasterKeyRotationBinlogFailed, 3181},
	{"ErMasterKeyRotationSeUnavailable", errs.ErMasterKeyRotationSeUnavailable, 3182},
	{"ErTablespaceCannotEncrypt", errs.ErTablespaceCannotEncrypt, 3183},
	{"ErInvalidEncryptionOption", errs.ErInvalidEncryptionOption, 3184},
	{"ErCannotFindKeyInKeyring", errs.ErCannotFindKeyInKeyring, 3185},
	{"ErCapacityExceededInParser", errs.ErCapacityExceededInParser, 3186},
	{"ErUnsupportedAlterEncryptionInplace", errs.ErUnsupportedAlterEncryptionInplace, 3187},
	{"ErKeyringUdfKeyringServiceError", errs.ErKeyringUdfKeyringServiceError, 3188},
	{"ErUserColumnOldLength", errs.ErUserColumnOldLength, 3189},
	{"ErXServiceError", errs.ErXServiceError, 5010},
	{"ErXSession", errs.ErXSession, 5011},
	{"ErXInvalidArgument", errs.ErXInvalidArgument, 5012},
	{"ErXMissingArgument", errs.ErXMissingArgument, 5013},
	{"ErXBadInsertData", errs.ErXBadInsertData, 5014},
	{"ErXCmdNumArguments", errs.ErXCmdNumArguments, 5015},
	{"ErXCmdArgumentType", errs.ErXCmdArgumentType, 5016},
	{"ErXCmdArgumentTVale", errs.ErXCmdArgumentTVale, 5017},
	{"ErXBadUpsertData", errs.ErXBadUpsertData, 5018},
	{"ErXBadUpdateData", errs.ErXBadUpdateData, 5050},
	{"ErXBadTypeOfUpdate", errs.ErXBadTypeOfUpdate, 5051},
	{"ErXBadColumnToUpdate", errs.ErXBadColumnToUpdate, 5052},
	{"ErXBadMemberToUpdate", errs.ErXBadMemberToUpdate, 5053},
	{"ErXBadStatementID", errs.ErXBadStatementID, 5110},
	{"ErXBadCursorID", errs.ErXBadCursorID, 5111},
	{"ErXBadSchema", errs.ErXBadSchema, 5112},
	{"ErXBadTable", errs.ErXBadTable, 5113},
	{"ErXBadProjection", errs.ErXBadProjection, 5114},
	{"ErXDocIDMissing", errs.ErXDocIDMissing, 5115},
	{"ErXDocIDDuplicate", errs.ErXDocIDDuplicate, 5116},
	{"ErXDocRequiredFieldMissing", errs.ErXDocRequiredFieldMissing, 5117},
	{"ErXProjBadKeyName", errs.ErXProjBadKeyName, 5120},
	{"ErXBadDocPath", errs.ErXBadDocPath, 5121},
	{"ErXCursorExists", errs.ErXCursorExists, 5122},
	{"ErXCursorReachedEOF", errs.ErXCursorReachedEOF, 5123},
	{"ErXPreparedStatementCanHaveOnCursor", errs.ErXPreparedStatementCanHaveOnCursor, 5131},
	{"ErXPreparedExecuteArgumentNotSupported", errs.ErXPreparedExecuteArgumentNotSupported, 5133},
	{"ErXPreparedExecuteArgumentConsistency", errs.ErXPreparedExecuteArgumentConsistency, 5134},
	{"ErXExprBadOperator", errs.ErXExprBadOperator, 5150},
	{"ErXExprBadNumArgs", errs.ErXExprBadNumArgs, 5151},
	{"ErXExprMissingArg", errs.ErXExprMissingArg, 5152},
	{"ErXExprBadTypeValue", errs.ErXExprBadTypeValue, 5153},
	{"ErXExprBadValue", errs.ErXExprBadValue, 5154},
	{"ErXInvalidCollection", errs.ErXInvalidCollection, 5156},
	{"ErXInvalidAdminCommand", errs.ErXInvalidAdminCommand, 5157},
	{"ErXExpectNotOpen", errs.ErXExpectNotOpen, 5158},
	{"ErXExpectNoErrorFailed", errs.ErXExpectNoErrorFailed, 5159},
	{"ErXExpectBadCondition", errs.ErXExpectBadCondition, 5160},
	{"ErXExpectBadConditionValue", errs.ErXExpectBadConditionValue, 5161},
	{"ErXInvalidNamespace", errs.ErXInvalidNamespace, 5162},
	{"ErXBadNotice", errs.ErXBadNotice, 5163},
	{"ErXCannotDisableNotice", errs.ErXCannotDisableNotice, 5164},
	{"ErXBadConfiguration", errs.ErXBadConfiguration, 5165},
	{"ErXMySQLXAaccountMissingPermissions", errs.ErXMySQLXAaccountMissingPermissions, 5167},
	{"ErXExpectFieldExistsFailed", errs.ErXExpectFieldExistsFailed, 5168},
	{"ErXBadLocking", errs.ErXBadLocking, 5169},
}
