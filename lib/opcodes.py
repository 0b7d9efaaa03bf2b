"""The numbers of the script steps in stored scripts."""
ALL = dict(
    PerformScript=1, SaveACopyAsXml=3, GoToNextField=4, GoToPreviousField=5, GoToLayout=6, NewRecordRequest=7,
    DuplicateRecordRequest=8, DeleteRecordRequest=9, DeleteAllRecords=10, InsertFromIndex=11,
    InsertFromLastVisited=12, InsertCurrentDate=13, InsertCurrentTime=14, GoToRecordRequestPage=16, GoToField=17,
    CheckSelection=18, CheckRecord=19, CheckFoundSet=20, UnsortRecords=21, EnterFindMode=22, ShowAllRecords=23,
    ModifyLastFind=24, OmitRecord=25, OmitMultipleRecords=26, ShowOmmitedOnly=27, PerformFind=28, ShowHideToolbars=29,
    ViewAs=30, AdjustWindow=31, OpenHelp=32, OpenFile=33, CloseFile=34, ImportRecords=35, ExportRecords=36,
    SaveACopyAs=37, OpenManageDatabase=38, SortRecords=39, RelookupFieldContents=40, EnterPreviewMode=41,
    PrintSetup=42, Print=43, ExitApplication=44, UndoRedo=45, Cut=46, Copy=47, Paste=48, Clear=49, SelectAll=50,
    RevertRecordRequest=51, EnterBrowserMode=55, InsertPicture=56, SendEvent=57, InsertCurrentUserName=60,
    InsertText=61, PauseResumeScript=62, SendMail=63, SendDdeExecute=64, DialPhone=65, Speak=66,
    PerformApplescript=67, If=68, Else=69, EndIf=70, Loop=71, ExitLoopIf=72, EndLoop=73, GoToRelatedRecord=74,
    CommitRecordsRequests=75, SetField=76, InsertCalculatedResult=77, FreezeWindow=79, RefreshWindow=80,
    ScrollWindow=81, NewFile=82, ChangePassword=83, SetMultiUser=84, AllowUserAbort=85, SetErrorCapture=86,
    ShowCustomDialog=87, OpenScriptWorkspace=88, BlankLineComment=89, HaltScript=90, ReplaceFieldContents=91,
    ShowHideTextRuler=92, Beep=93, SetUseSystemFormats=94, RecoverFile=95, SaveACopyAsAddOnPackage=96,
    SetZoomLevel=97, CopyAllRecordsRequests=98, GoToPortalRow=99, CopyRecordRequest=101, FluchCacheToDisk=102,
    ExitScript=103, DeletePortalRow=104, OpenPreferences=105, CorrectWord=106, SpellingOptions=107,
    SelectDictionaries=108, EditUserDictionary=109, OpenUrl=111, OpenManageValueLists=112, OpenSharing=113,
    OpenFileOptions=114, AllowFormattingBar=115, SetNextSerialValue=116, ExecuteSql=117, OpenHosts=118,
    MoveResizeWindow=119, ArrangeAllWindows=120, CloseWindow=121, NewWindow=122, SelectWindow=123, SetWindowTitle=124,
    ElseIf=125, ConstrainFoundSet=126, ExtendFoundSet=127, PerformFindReplace=128, OpenFindReplace=129,
    SetSelection=130, InsertFile=131, ExportFieldContents=132, OpenRecordRequest=133, AddAccount=134,
    DeleteAccount=135, ResetAccountPassword=136, EnableAccount=137, Relogin=138, ConvertFile=139,
    OpenManageDataSources=140, SetVariable=141, InstallMenuSet=142, SaveRecordsAsExcel=143, SaveRecordsAsPdf=144,
    GoToObject=145, SetWebViewer=146, SetFieldByName=147, InstallOntimerScript=148, OpenEditSavedFinds=149,
    PerformQuickFind=150, OpenManageLayouts=151, SaveRecordsAsSnapshotLink=152, SortRecordsByField=154,
    FindMatchingRecords=155, ManageContainers=156, InstallPluginFile=157, InsertPdf=158, InsertAudioVideo=159,
    InsertFromUrl=160, InsertFromDevice=161, PerformScriptOnServer=164, OpenManageThemes=165, ShowHideMenubar=166,
    RefreshObject=167, SetLayoutObjectAnimation=168, ClosePopover=169, OpenUploadToHost=172, EnableTouchKeyboard=174,
    PerformJavascriptInWebViewer=175, CommentedOut=176, AvplayerPlay=177, AvplayerSetPlaybackState=178,
    AvplayerSetOptions=179, RefreshPortal=180, GetFolderPath=181, TruncateTable=182, OpenFavorites=183,
    ConfigureRegionMonitorScript=185, ConfigureLocalNotification=187, GetFileExists=188, GetFileSize=189,
    CreateDataFile=190, OpenDataFile=191, WriteToDataFile=192, ReadFromDataFile=193, GetDataFilePosition=194,
    SetDataFilePosition=195, CloseDataFile=196, DeleteFile=197, RenameFile=199, SetErrorLogging=200,
    ConfigureNfcReading=201, ConfigureMachineLearningModel=202, ExecuteFilemakerDataApi=203, OpenTransaction=205,
    CommitTransaction=206, RevertTransaction=207, SetSessionIdentifier=208, SetDictionary=209,
    PerformScriptOnServerWithCallback=210, TriggerClarisConnectFlow=211, Assert=254)
