From 64c0df4c1a6a6fabca9a26b1f8c49daa07f0191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:31 +0000
Subject: [PATCH 01/64] fix: p3utils: resume interrupted reads and short or
 interrupted writes

---
 src/rtl/p3utils.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index 9ba4173..a4b64fb 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -514,7 +514,10 @@ int p3FileRead( Tp3FileHandle h, char *buffer, uint32_t buflen, uint32_t &numRea
          res = EIO;
    }
 #else
-   if( const auto rc = read( h, buffer, buflen ); rc < 0 )
+   auto rc = read( h, buffer, buflen );
+   while( rc < 0 && errno == EINTR )// interrupted before any data arrived
+      rc = read( h, buffer, buflen );
+   if( rc < 0 )
    {
       res = errno;
       numRead = 0;
@@ -536,12 +539,18 @@ int p3FileWrite( Tp3FileHandle h, const char *buffer, uint32_t buflen, uint32_t
          res = EIO;
    }
 #else
-   if ( const auto rc = write( h, buffer, buflen ); rc < 0) {
-      res = errno;
-      numWritten = 0;
+   numWritten = 0;
+   while( numWritten < buflen )
+   {// write may transfer less than requested or be interrupted by a signal
+      const auto rc = write( h, buffer + numWritten, buflen - numWritten );
+      if( rc < 0 && errno == EINTR ) continue;
+      if( rc <= 0 )
+      {
+         res = rc < 0 ? errno : EIO;
+         break;
+      }
+      numWritten += ui32(rc);
    }
-   else
-      numWritten = ui32(rc);
 #endif
    return res;
 }
-- 
2.43.0


From 79bca40a862d705bac61c3fa5147500ce6c5763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:37 +0000
Subject: [PATCH 02/64] fix: gdxClose: report failures of the final flush and
 of closing the file, and do not convert a file that could not be written

---
 src/gdlib/gmsstrm.cpp | 10 ++++++++--
 src/gdlib/gmsstrm.hpp |  3 +++
 src/gxfile.cpp        | 11 +++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..279f630 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -531,8 +531,14 @@ TXFileStream::TXFileStream( std::string AFileName, const FileAccessMode AMode )
 
 TXFileStream::~TXFileStream()
 {
-   if( FileIsOpen )
-      SetLastIOResult( p3FileClose(FS) );
+   Close();
+}
+
+void TXFileStream::Close()
+{
+   if( !FileIsOpen ) return;
+   FileIsOpen = false;
+   SetLastIOResult( p3FileClose(FS) );
 }
 
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..53d1ecd 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -218,6 +218,9 @@ public:
    uint32_t Read( void *Buffer, uint32_t Count ) override;
    uint32_t Write( const void *Buffer, uint32_t Count ) override;
 
+   // Closes the file; the outcome is available with GetLastIOResult
+   void Close();
+
    void SetLastIOResult( int V );
    int GetLastIOResult();
 
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..d868cd6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -628,7 +628,14 @@ int TGXFileObj::gdxClose()
          FFile->WriteInt64( offset );
    }
 
-   int res { FFile ? FFile->GetLastIOResult() : 1 };
+   int res { 1 };
+   if( FFile )
+   {
+      // the last buffer is written and the file closed before asking for the I/O result
+      FFile->FlushBuffer();
+      FFile->Close();
+      res = FFile->GetLastIOResult();
+   }
 
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
    if( NameList )
@@ -654,7 +661,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( AutoConvert && !fnConv.empty() && !res )
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
-- 
2.43.0


From bb726d5f6f4bda4fdfc33b45a68cb480e08aae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:07 +0000
Subject: [PATCH 03/64] fix: gdxClose: finish the file when closing right after
 starting a symbol or during a UEL registration

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d868cd6..07b1b26 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,8 +537,10 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
+   else if( fstatus == stat_write && in( fmode, f_raw_elem, f_map_elem, f_str_elem ) )// unfinished registration
+      gdxUELRegisterDone();
    if( fmode == fw_init )
    {
       fnConv = FFile->GetFileName();
-- 
2.43.0


From a8b4bb02607f32cdf012bd9ccded391755356800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 04/64] fix: reading: report truncated, unreadable or
 undecodable data instead of delivering uninitialised values

---
 src/gdlib/gmsstrm.cpp | 39 +++++++++++++++++++++++++------
 src/gdlib/gmsstrm.hpp |  8 ++++++-
 src/gdx.hpp           |  1 +
 src/gxfile.cpp        | 53 +++++++++++++++++++++++++++++++------------
 4 files changed, 78 insertions(+), 23 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 279f630..7349c32 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -599,6 +599,17 @@ std::string TXFileStream::GetFileName() const
 
 bool TBufferedFileStream::FillBuffer()
 {
+   // a block is only usable as a whole
+   const auto ReadAll = [this]( void *buffer, uint32_t len ) {
+      uint32_t n {};
+      while( n < len )
+      {
+         const auto nr = TXFileStream::Read( static_cast<uint8_t *>( buffer ) + n, len - n );
+         if( !nr ) break;
+         n += nr;
+      }
+      return n;
+   };
    if( !FCompress ) NrLoaded = TXFileStream::Read( BufPtr.data(), BufSize );
    else if( !FCanCompress )
    {
@@ -607,20 +618,23 @@ bool TBufferedFileStream::FillBuffer()
    }
    else
    {
-      if( const auto RLen = ui16(TXFileStream::Read( &CBufPtr->cxHeader, sizeof( TCompressHeader ) ));
+      if( const auto RLen = ReadAll( &CBufPtr->cxHeader, sizeof( TCompressHeader ) );
          RLen < sizeof( TCompressHeader ) )
          NrLoaded = 0;
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
-         else
+         unsigned long XLen = BufSize;// we need a var parameter
+         bool good { WLen <= ( !CBufPtr->cxHeader.cxTyp ? BufSize : CBufSize - sizeof( TCompressHeader ) ) };
+         if( good && !CBufPtr->cxHeader.cxTyp )
          {
-            TXFileStream::Read( &CBufPtr->cxData, WLen );
-            unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
-            NrLoaded = ui32(XLen);
+            XLen = WLen;
+            good = ReadAll( BufPtr.data(), WLen ) == WLen;
          }
+         else if( good )
+            good = ReadAll( &CBufPtr->cxData, WLen ) == WLen && !uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
+         NrLoaded = good ? ui32(XLen) : 0;
+         if( !good ) SetLastIOResult( strmErrorIncomplete );
       }
    }
    NrRead = NrWritten = 0;
@@ -852,6 +866,17 @@ int TMiBufferedStream::GoodByteOrder() const
    return res;
 }
 
+uint32_t TMiBufferedStream::Read( void *Buffer, uint32_t Count )
+{
+   const uint32_t NrBytes = TBufferedFileStream::Read( Buffer, Count );
+   if( NrBytes < Count )
+   {
+      std::memset( Buffer, 0, Count );
+      SetLastIOResult( strmErrorIncomplete );
+   }
+   return NrBytes;
+}
+
 double TMiBufferedStream::ReadDouble()
 {
    return ReadValueOrdered<double>( RWType::rw_double, order_double );
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 53d1ecd..a0c1444 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -76,7 +76,9 @@ constexpr int
         strmErrorNoPassWord = 3,
         strmErrorIntegrity = 4,
         strmErrorZLib = 5,
-        strmErrorEncoding = 6;
+        strmErrorEncoding = 6,
+
+        strmErrorIncomplete = -100001;// data ends early or cannot be decompressed, check with ERR_FILEERROR in gxfile
 
 constexpr uint16_t PAT_WORD = 0x1234u;
 constexpr /*uint32_t*/ int PAT_INTEGER = 0x12345678 /*u*/;
@@ -223,6 +225,8 @@ public:
 
    void SetLastIOResult( int V );
    int GetLastIOResult();
+   // Same as GetLastIOResult() != 0 without clearing the result
+   [[nodiscard]] bool HasIOError() const { return FLastIOResult != 0; }
 
    void SetPassWord( const std::string &s );
    [[nodiscard]] bool GetUsesPassWord() const;
@@ -325,6 +329,8 @@ public:
    TMiBufferedStream( const std::string &FileName, uint16_t Mode );
    static void ReverseBytes( void *psrc, void *pdest, int sz );
    [[nodiscard]] int GoodByteOrder() const;
+   // Incomplete data is an error: the buffer is cleared and the I/O result is set
+   uint32_t Read( void *Buffer, uint32_t Count ) override;
    double ReadDouble() override;
    int ReadInteger() override;
    uint16_t ReadWord() override;
diff --git a/src/gdx.hpp b/src/gdx.hpp
index 4bdb1da..8923357 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1783,6 +1783,7 @@ std::string FProducer, FProducer2, FileSystemID;
 int64_t MajorIndexPosition {};
 int64_t NextWritePosition {};
 int DataCount {}, NrMappedAdded {};
+bool DataReadFailed {};
 std::array<TgdxElemSize, GLOBAL_MAX_INDEX_DIM> ElemType {};
 std::string MajContext;
 std::array<TIntegerMapping, GLOBAL_MAX_INDEX_DIM> SliceIndxs {}, SliceRevMap {};
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 07b1b26..6cb4eea 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -893,6 +893,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
+   DataReadFailed = false;
 
    if( !MajorCheckMode( Caller, fr_init ) )
    {
@@ -979,6 +980,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       if( ErrorCondition( FFile->ReadString() == MARK_DATA, ERR_BADDATAMARKER_DATA ) ||
           ErrorCondition( FFile->ReadByte() == FCurrentDim, ERR_BADDATAMARKER_DIM ) ) return -1;
       FFile->ReadInteger();//skip record counter
+      if( ErrorCondition( !FFile->HasIOError(), ERR_FILEERROR ) ) return -1;
    }
 
    if( !FCurrentDim && !NrRecs )
@@ -999,6 +1001,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
          MaxElem[D] = FFile->ReadInteger();
          ElemType[D] = GetIntegerSize( static_cast<int64_t>(MaxElem[D]) - MinElem[D] + 1 );
       }
+      if( ErrorCondition( !FFile->HasIOError(), ERR_FILEERROR ) ) return -1;
    }
    bool AllocOk { true };
 
@@ -1142,6 +1145,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
             }
             ReadPtr = SortList->StartRead( nullptr );
             res = static_cast<int>( SortList->Count() );
+            if( DataReadFailed ) AllocOk = false;
          }
          catch( std::exception &e )
          {
@@ -1161,7 +1165,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    else
    {
       // NOTE: Not covered by unit tests yet.
-      SetError( ERR_OUT_OF_MEMORY );
+      if( !DataReadFailed ) SetError( ERR_OUT_OF_MEMORY );
       SortList = nullptr;
       fmode = fr_init;
       return -1;
@@ -1414,8 +1418,16 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
       return true;
    }
 
+   const auto readFailed = [this]( int N ) {
+      DataReadFailed = true;
+      ReportError( N );
+      return false;
+   };
+
    uint8_t B;
    FFile->Read( &B, 1 );
+   if( FFile->HasIOError() ) return readFailed( ERR_FILEERROR );
+   if( !B ) return readFailed( ERR_BADDATAFORMAT );
    if( B > DeltaForRead )
    {// relative change in last dimension
       if( B == 255 ) return false;
@@ -1460,6 +1472,10 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
          }
          AVals[DV] = SV != vm_normal ? readIntlValueMapDbl[SV] : maybeRemap( FFile->ReadDouble() );
       }
+   }
+   if( FFile->HasIOError() ) return readFailed( ERR_FILEERROR );
+   if( DataSize > 0 )
+   {
       if( MapSetText && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
       {// remap settext number
          // NOTE: Not covered by unit tests yet.
@@ -1899,8 +1915,8 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    FFile = std::make_unique<TMiBufferedStream>( Afn, filemode );
    lastFileName = Afn;
    ErrNr = FFile->GetLastIOResult();
-   if( ErrNr ) return FileNoGood();
-   if( FFile->GoodByteOrder() )
+   if( ErrNr && ErrNr != ERR_FILEERROR ) return FileNoGood();
+   if( ErrNr || FFile->GoodByteOrder() )
    {
       // NOTE: Not covered by unit tests yet.
       ErrNr = ERR_BADDATAFORMAT;
@@ -1950,6 +1966,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
          DomStrPos = FFile->ReadInt64();
       }
    }
+   if( ErrorCondition( !FFile->HasIOError(), ERR_FILEERROR ) ) return FileErrorNr();
    // reading symbol table
    FFile->SetCompression( DoUncompress );
    FFile->SetPosition( SymbPos );
@@ -1961,7 +1978,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    AcronymList = std::make_unique<TAcronymList>(true);
    FilterList = std::make_unique<TFilterList>();
    const int NrElemsOfSym = NrElem;
-   for( int N { 1 }; N <= NrElemsOfSym; N++ )
+   for( int N { 1 }; N <= NrElemsOfSym && !FFile->HasIOError(); N++ )
    {
       uint8_t Slen;
       sstring S;
@@ -2022,7 +2039,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    // bug for pre 2002
    if( substr( FileSystemID, 15, 4 ) == "2001"s ) NrElem--;
 
-   while( UELTable->size() < NrElem )
+   while( UELTable->size() < NrElem && !FFile->HasIOError() )
    {
       uint8_t slen;
       sstring s;
@@ -2046,7 +2063,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       // subtract bytes for length (4-byte) and twice 7 chars MARK_SETT (_SETT_\0)
       const auto setTextStrBytes { UELPos - SetTextPos - 7 * 2 - 4 };
       SetTextList->SetCapacity( NrElem, setTextStrBytes );
-      for( int N {}; N < NrElem; N++ )
+      for( int N {}; N < NrElem && !FFile->HasIOError(); N++ )
       {
          uint8_t slen;
          sstring s;
@@ -2090,7 +2107,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       while( true )
       {
          const int SyNr = FFile->ReadInteger();
-         if( SyNr <= 0 ) break;
+         if( SyNr <= 0 || SyNr > NameList->size() ) break;
          const auto sym = *NameList->GetObject( SyNr );
          sym->SDomStrings = std::make_unique<int[]>( sym->SDim );
          for( int D {}; D < sym->SDim; D++ )
@@ -2099,6 +2116,8 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       if( ErrorCondition( FFile->ReadString() == MARK_DOMS, ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
    }
 
+   if( ErrorCondition( !FFile->HasIOError(), ERR_FILEERROR ) ) return FileErrorNr();
+
    LastError = ERR_NOERROR;
    gdxResetSpecialValues();
    fmode = fr_init;
@@ -3143,7 +3162,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3166,6 +3185,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
       DomainIndxs.SetMapping( RawNr, 1 );
    }
    gdxDataReadDone();
+   if( DataReadFailed ) return false;
    NrElem = 0;
    TIndex Index {};
    if( !DP )
@@ -3308,9 +3328,8 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
-
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
 
    TgdxValues Values;
    int FDim;
@@ -3324,6 +3343,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
          SliceIndxs[D].SetMapping( LastElem[D], 1 );
 
    gdxDataReadDone();
+   if( DataReadFailed ) return false;
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -3368,7 +3388,7 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
    fmode = fr_init;
    if( !GoodIndx ) return false;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice );
+   if( PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice ) < 0 ) return false;
    TgdxValues Values;
    TgdxUELIndex HisIndx;
    int FDim;
@@ -3385,7 +3405,7 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
       }
       if( GoodIndx ) DP( HisIndx.data(), Values.data() );
    }
-   return true;
+   return !DataReadFailed;
 }
 
 int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
@@ -3525,6 +3545,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
             res = LengthInfo[D];
    }
    gdxDataReadDone();
+   if( DataReadFailed ) return 0;
    return res;
 }
 
@@ -3669,7 +3690,7 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
                break;
             }
          }
-         res = true;
+         res = !DataReadFailed;
       }
    }
    gdxDataReadDone();
@@ -3680,12 +3701,13 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
       DP( LastElem.data(), AVals.data() );
    gdxDataReadDone();
-   return NrRecs >= 0;
+   return !DataReadFailed;
 }
 
 int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRecs, void *Uptr )
@@ -3695,6 +3717,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
@@ -3713,7 +3736,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
          ;
    }
    gdxDataReadDone();
-   return NrRecs >= 0;
+   return !DataReadFailed;
 }
 
 void TGXFileObj::gdxGetDomainElements_DP_FC( int RawIndex, int MappedIndex, void *Uptr )
-- 
2.43.0


From ec0e9479cf4b5b1400d348981c1cb213c6e6d327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 05/64] fix: gdxSymbolAddComment: terminate comments cut at 255
 characters

---
 src/gdlib/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..37e66ac 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -706,7 +706,8 @@ inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSiz
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
 {
    if( slen + 1 > outBufSize ) return;
-   std::memcpy( buf, s, slen + 1 );
+   std::memcpy( buf, s, slen );
+   buf[slen] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From ebea368c06f0ca2c3229d9998663552f2d27e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 06/64] fix: trimRight: do not write past the storage for
 overlong text with trailing blanks

---
 src/gdlib/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..3918ac3 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -175,7 +175,8 @@ const char *trimRight( const char *s,
    for( i = 0; s[i] != '\0'; i++ )
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
-   if( ++slen == i ) return s;
+   // storage holds a short string: anything longer is no valid label and is handed back as is
+   if( ++slen == i || slen > 255 ) return s;
    std::memcpy( storage, s, slen );
    storage[slen] = '\0';
    return storage;
-- 
2.43.0


From b679f8cbbfd22f56c21e41860daa33ea554d6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:03 +0000
Subject: [PATCH 07/64] fix: gdxErrorStr: do not dereference a nil handle

---
 generated/gdxcwrap.h | 3 ++-
 src/gdx.hpp          | 3 +++
 src/gxfile.cpp       | 9 +++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/generated/gdxcwrap.h b/generated/gdxcwrap.h
index 7d1973f..2600446 100644
--- a/generated/gdxcwrap.h
+++ b/generated/gdxcwrap.h
@@ -413,7 +413,8 @@ GDX_INLINE int gdxErrorCount( TGXFileRec_t *pgx)
 
 GDX_INLINE int gdxErrorStr( TGXFileRec_t *pgx, int ErrNr, char *ErrMsg )
 {
-   return reinterpret_cast<gdx::TGXFileObj *>( pgx )->gdxErrorStr(ErrNr, ErrMsg );
+   // the documentation calls this with a nil handle, e.g. after a failed gdxOpenRead
+   return pgx ? reinterpret_cast<gdx::TGXFileObj *>( pgx )->gdxErrorStr( ErrNr, ErrMsg ) : gdx::TGXFileObj::gdxErrorStr( ErrNr, ErrMsg, "" );
 }
 
 GDX_INLINE int gdxFileInfo( TGXFileRec_t *pgx, int *FileVer, int *ComprLev )
diff --git a/src/gdx.hpp b/src/gdx.hpp
index 8923357..1bf01f4 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -435,6 +435,9 @@ public:
     */
    int gdxErrorStr( int ErrNr, char *ErrMsg ) const;
 
+   /// Same without an object; fileName is the file a "not found" message names (may be empty).
+   static int gdxErrorStr( int ErrNr, char *ErrMsg, const std::string &fileName );
+
    /**
     * @brief Returns the last error number or zero if there was no error. Calling this function will clear the
     *   last error stored.
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6cb4eea..d55e5ef 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1733,11 +1733,16 @@ const std::map<int, std::string> errorCodeToStr {
         { ERR_CANNOT_RENAME, "GDXCOPY: Cannot rename file"s } };
 
 int TGXFileObj::gdxErrorStr( int ErrNr, char *ErrMsg ) const
+{
+   return gdxErrorStr( ErrNr, ErrMsg, lastFileName );
+}
+
+int TGXFileObj::gdxErrorStr( int ErrNr, char *ErrMsg, const std::string &fileName )
 {
    const auto it = errorCodeToStr.find( ErrNr );
    std::string msg {it == errorCodeToStr.end() ? SysErrorMessage( ErrNr ) : it->second};
-   if(ErrNr == 2 && !lastFileName.empty()) // No such file or directory <- append path!
-      msg += ": \""s + lastFileName + '\"';
+   if(ErrNr == 2 && !fileName.empty()) // No such file or directory <- append path!
+      msg += ": \""s + fileName + '\"';
    assignStrToBuf(msg, ErrMsg, GMS_SSSIZE );
    return true;
 }
-- 
2.43.0


From 33932423cb038bf0bb5807191ce95f5f37012182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:39 +0000
Subject: [PATCH 08/64] fix: assignStrToBuf: truncate text that does not fit
 instead of overflowing or leaving the buffer unset

---
 src/gdlib/utils.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 37e66ac..8663786 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,12 +695,10 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
-#if defined( _WIN32 )
-   std::memcpy( buf, s.c_str(), s.length() + 1 );
-#else
-   std::strcpy( buf, s.c_str() );
-#endif
+   if( outBufSize <= 0 ) return;
+   const size_t len { std::min<size_t>( s.length(), outBufSize - 1 ) };// truncate when exceeding
+   std::memcpy( buf, s.data(), len );
+   buf[len] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From caf0316daedf940594867a1a70a160c0a6838954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:26 +0000
Subject: [PATCH 09/64] fix: gdxOpenRead/gdxOpenAppend: release everything when
 a file is refused, report the error of files too old for appending

---
 src/gdx.hpp    |  1 +
 src/gxfile.cpp | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 1bf01f4..0c916f2 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1820,6 +1820,7 @@ TDomainIndexProc_t gdxGetDomainElements_DP {};
 bool PrepareSymbolWrite( std::string_view Caller, const char *AName, const char *AText, int ADim, int AType, int AUserInfo );
 int PrepareSymbolRead( std::string_view Caller, int SyNr, const int *ADomainNrs, TgxFileMode newmode );
 
+void FreeFileData();
 void InitErrors();
 void SetError( int N );
 void ReportError( int N );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d55e5ef..73c74c6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -639,6 +639,21 @@ int TGXFileObj::gdxClose()
       res = FFile->GetLastIOResult();
    }
 
+   FreeFileData();
+
+   fmode = f_not_open;
+   fstatus = stat_notopen;
+
+   if( AutoConvert && !fnConv.empty() && !res )
+   {
+      res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
+      if( res > 0 ) res += 100;
+   }
+   return res;
+}
+
+void TGXFileObj::FreeFileData()
+{
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
    if( NameList )
    {
@@ -651,6 +666,7 @@ int TGXFileObj::gdxClose()
    }
 
    FFile = nullptr;
+   CurSyPtr = nullptr;
    SetTextList = nullptr;
    UELTable = nullptr;
    SortList = nullptr;
@@ -659,16 +675,6 @@ int TGXFileObj::gdxClose()
    FilterList = nullptr;
    AcronymList = nullptr;
    MapSetText = nullptr;
-
-   fmode = f_not_open;
-   fstatus = stat_notopen;
-
-   if( AutoConvert && !fnConv.empty() && !res )
-   {
-      res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
-      if( res > 0 ) res += 100;
-   }
-   return res;
 }
 
 void TGXFileObj::InitErrors()
@@ -1902,7 +1908,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      FreeFileData();
       return false;
    };
 
@@ -3480,6 +3486,7 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    {
       ReportError( ERR_FILETOOLDFORAPPEND );
       gdxClose();
+      ErrNr = ERR_FILETOOLDFORAPPEND;
       return 0;
    }
    fmode = fw_init;
-- 
2.43.0


From 89618ef9e7eaf78c5ee97256892fe13f9ea90d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:59 +0000
Subject: [PATCH 10/64] fix: acronyms: refuse entry numbers that do not exist,
 return 0 when adding an acronym already present

---
 src/gxfile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 73c74c6..51a84f0 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3033,7 +3033,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3069,7 +3069,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3267,7 +3267,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From ef6d1ad6381d53b7f6c32264a86b92db14008792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:18 +0000
Subject: [PATCH 11/64] fix: refuse calls that need an open file instead of
 dereferencing the released tables

---
 src/gxfile.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 51a84f0..24f7007 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2412,7 +2412,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2421,7 +2421,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2588,7 +2588,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -3008,7 +3008,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -3156,7 +3156,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3260,6 +3260,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( !AcronymList ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3290,7 +3291,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3530,7 +3531,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
    memset( LengthInfo, 0, GLOBAL_MAX_INDEX_DIM * sizeof( int ) );
 
    int NrRecs;
-   if( ( ( TraceLevel >= TraceLevels::trl_some || fmode != fr_init ) && !CheckMode( "SymbIndxMaxLength"s, fr_init ) ) || ( SyNr < 0 || SyNr > NameList->size() ) || !gdxDataReadRawStart( SyNr, NrRecs ) )
+   if( ( ( TraceLevel >= TraceLevels::trl_some || fmode != fr_init ) && !CheckMode( "SymbIndxMaxLength"s, fr_init ) ) || ( SyNr < 0 || !NameList || SyNr > NameList->size() ) || !gdxDataReadRawStart( SyNr, NrRecs ) )
       return 0; // not covered by unit tests yet!
 
    int res {};
@@ -3564,7 +3565,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
-   for( int N { 1 }; N <= NameList->Count(); N++ )
+   for( int N { 1 }; N <= ( NameList ? NameList->Count() : 0 ); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
 }
@@ -3606,7 +3607,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From d4958188558c8bfda07195dd31bbfc5ab6c209f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:53 +0000
Subject: [PATCH 12/64] fix: calls refused for being out of phase no longer
 change or end the running session

---
 src/gxfile.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 24f7007..65ed229 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -745,12 +745,12 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;// refused calls leave the running session alone
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
@@ -895,18 +895,13 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
+   if( !MajorCheckMode( Caller, fr_init ) ) return -1;// refused calls leave the running session alone
    NrMappedAdded = 0;
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
    DataReadFailed = false;
 
-   if( !MajorCheckMode( Caller, fr_init ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return -1;
-   }
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1812,14 +1807,9 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
+   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) ) return false;
    SortList = nullptr;
    CurSyPtr = nullptr;
-   if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
-   {
-      // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
-      return false;
-   }
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
-- 
2.43.0


From 8f4472ab9b6f6aa42333fbb1a0a35f0b6fdef6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 13/64] fix: discard debug output instead of collecting it in
 an unsynchronised, ever growing global stream

---
 src/gdlib/utils.cpp | 4 ----
 src/gdlib/utils.hpp | 7 ++++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 3918ac3..cee81f6 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -47,10 +47,6 @@ using namespace std::literals::string_literals;
 // ==============================================================================================================
 // Implementation
 // ==============================================================================================================
-#if defined(NDEBUG) && !defined(__IN_CPPMEX__)
-std::stringstream debugStream;
-#endif
-
 namespace utils
 {
 
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 8663786..4ab7a20 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -58,7 +58,12 @@
 #if !defined(NDEBUG) || defined(__IN_CPPMEX__)
 #define debugStream std::cout
 #else
-extern std::stringstream debugStream;
+// Discards debug output. Shared by all objects in all threads, so it must not hold any state.
+struct TNullStream {
+   template<typename T>
+   const TNullStream &operator<<( const T & ) const { return *this; }
+};
+inline constexpr TNullStream debugStream {};
 #endif
 
 namespace utils
-- 
2.43.0


From a717a154070b7fc98865c8502aa7b2e041c3c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:25 +0000
Subject: [PATCH 14/64] fix: no scratch buffers shared between objects and
 threads; keep the file well-formed when overlong text is written

---
 src/gdlib/gmsstrm.cpp |  4 ++--
 src/gxfile.cpp        | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 7349c32..1a9900d 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -247,10 +247,10 @@ void TXStream::WriteString( const std::string_view s )
       *fstext << "WriteString@" << GetPosition() << "#" << ++cnt << ": " << s << "\n";
    }
 #endif
-   static sstring buf {};
+   sstring buf;
    if( Paranoid ) ParWrite( RWType::rw_string );
    strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   Write( buf.data(), static_cast<uint8_t>( buf[0] ) + 1u );// the length stored: overlong text was replaced by a message
 }
 
 void TXStream::WriteDouble( double x )
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 65ed229..13f879d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -482,7 +482,7 @@ int TGXFileObj::gdxDataWriteStr( const char **KeyStr, const double *Values )
          debugStream << " " << KeyStr[D] << ( D + 1 < FCurrentDim ? "," : "" ) << "\n";
    }
    // Could actually be GLOBAL_UEL_IDENT_SIZE but is ShortString in Delphi
-   static sstring SVstorage;
+   sstring SVstorage;
    for( int D {}; D < FCurrentDim; D++ )
    {
       int SVlen;
@@ -1543,8 +1543,8 @@ void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_D
    else if( ErrorList->GetCount() >= 11 )
       return;// NOTE: Not covered by unit tests yet.
 
-   static std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
-   static std::array<double, GMS_VAL_MAX> vals {};
+   std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
+   std::array<double, GMS_VAL_MAX> vals {};
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -2174,7 +2174,7 @@ int TGXFileObj::gdxAddSetText( const char *Txt, int &TxtNr )
       TxtNr = 0;
       return false;
    }
-   static sstring s;
+   sstring s;
    assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
    const int slen { MakeGoodExplText( s.data() ) };
    TxtNr = SetTextList->Add( s.data(), slen );
@@ -2635,7 +2635,7 @@ int TGXFileObj::gdxUELRegisterRaw( const char *Uel )
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_raw_elem ) && !CheckMode( "UELRegisterRaw"s, f_raw_elem ) )
       return false;// NOTE: Not covered by unit tests yet.
 
-   static sstring svStorage;
+   sstring svStorage;
    int svLen;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ) return false;
@@ -2655,7 +2655,7 @@ int TGXFileObj::gdxUELRegisterStr( const char *Uel, int &UelNr )
 {
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_str_elem ) && !CheckMode( "UELRegisterStr"s, f_str_elem ) )
       return false; // not covered by unit test
-   static sstring SVstorage;
+   sstring SVstorage;
    int svlen;
    const char *SV { trimRight( Uel, SVstorage.data(), svlen ) };
    if( ErrorCondition( GoodUELString( SV, svlen ), ERR_BADUELSTR ) )
@@ -2799,7 +2799,7 @@ int TGXFileObj::gdxUELRegisterMapStart()
 int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
 {
    int svLen;
-   static sstring svStorage;
+   sstring svStorage;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( TraceLevel >= TraceLevels::trl_all || fmode != f_map_elem )
    {
@@ -3608,7 +3608,7 @@ int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
       UelNr = -1;
       return false;
    }
-   static sstring trimmedUelStorage;
+   sstring trimmedUelStorage;
    int trimmedUelLen;
    UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );
    if( UelNr < 0 ) return false;
-- 
2.43.0


From 35002e999e3218f2eff99b802556a2bc327a4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:04 +0000
Subject: [PATCH 15/64] fix: gdxSymbolInfoX: do not report the universe size of
 an earlier session

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 13f879d..0ffb9b7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -667,6 +667,7 @@ void TGXFileObj::FreeFileData()
 
    FFile = nullptr;
    CurSyPtr = nullptr;
+   UelCntOrig = 0;
    SetTextList = nullptr;
    UELTable = nullptr;
    SortList = nullptr;
-- 
2.43.0


From dfe1d92031468d8ea71f0572d0756a6b4d0cfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:29 +0000
Subject: [PATCH 16/64] fix: gdxSymbolAddComment: no current symbol right after
 gdxOpenAppend

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0ffb9b7..95257de 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2122,6 +2122,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    LastError = ERR_NOERROR;
    gdxResetSpecialValues();
+   CurSyPtr = nullptr;// no symbol in progress
    fmode = fr_init;
    fstatus = stat_read;
    FFile->SetCompression( false );
-- 
2.43.0


From de0a8873aaac1d4a762452306ca23fad14df0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:53 +0000
Subject: [PATCH 17/64] fix: gdxDataReadMap: do not deliver what follows the
 last record as data when called again

---
 src/gdx.hpp    |  2 +-
 src/gxfile.cpp | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 0c916f2..884cf60 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1786,7 +1786,7 @@ std::string FProducer, FProducer2, FileSystemID;
 int64_t MajorIndexPosition {};
 int64_t NextWritePosition {};
 int DataCount {}, NrMappedAdded {};
-bool DataReadFailed {};
+bool DataReadFailed {}, DataReadEnded {};
 std::array<TgdxElemSize, GLOBAL_MAX_INDEX_DIM> ElemType {};
 std::string MajContext;
 std::array<TIntegerMapping, GLOBAL_MAX_INDEX_DIM> SliceIndxs {}, SliceRevMap {};
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 95257de..7d1f895 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -901,7 +901,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
-   DataReadFailed = false;
+   DataReadFailed = DataReadEnded = false;
 
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
@@ -1400,6 +1400,9 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
       return v >= Zvalacr ? AcronymRemap( v ) : v;
    };
 
+   // nothing follows the last record: more calls must not interpret what comes next in the file as data
+   if( DataReadFailed || DataReadEnded ) return false;
+
    if( ReadUniverse )
    {
       UniverseNr++;
@@ -1432,7 +1435,11 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
    if( !B ) return readFailed( ERR_BADDATAFORMAT );
    if( B > DeltaForRead )
    {// relative change in last dimension
-      if( B == 255 ) return false;
+      if( B == 255 )
+      {
+         DataReadEnded = true;
+         return false;
+      }
       AFDim = FCurrentDim;
       if( FCurrentDim > 0 ) LastElem[FCurrentDim - 1] += B - DeltaForRead;
    }
-- 
2.43.0


From 71df7b9c992a6a105b8aedd125a271192c50d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:04 +0000
Subject: [PATCH 18/64] fix: gdxDataReadMap: keys and first changed position no
 longer depend on the caller's buffer or an earlier read

---
 src/gxfile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7d1f895..23453ca 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -949,6 +949,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       WriteTrace( "Symbol = "s + rtl::sysutils_p3::IntToStr( SyNr ) +
                   ( CurSyPtr ? ", Dim = "s + rtl::sysutils_p3::IntToStr( CurSyPtr->SDim ) : ""s ) );
 
+   std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
    DeltaForRead = VersionRead <= 6 ? MaxDimV148 : FCurrentDim;
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -996,7 +997,6 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    {
       CurSyPtr->SScalarFrst = false;
       std::fill_n( LastElem.begin(), FCurrentDim, INDEX_INITIAL );
-      std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
       for( int D {}; D < FCurrentDim; D++ )
       {
          MinElem[D] = FFile->ReadInteger();
@@ -2860,6 +2860,9 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
 
    assert( fmode == fr_mapr_data && "fr_mapr_data expected" );
 
+   // only the changed positions are set below: start from the keys of the previous record
+   std::copy_n( PrevElem.begin(), FCurrentDim, KeyInt );
+
    bool AddNew {}, AddError {}, BadError {};
    int FIDim { FCurrentDim };
 
-- 
2.43.0


From e49383335f373018f1e142f6aad4f10eaeb63aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:55 +0000
Subject: [PATCH 19/64] fix: gdxSymbolSetDomain: domain that is an alias of the
 universe when bogus domains are not allowed

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 23453ca..56e7a70 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2534,6 +2534,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
             if(!AllowBogusDomain &&
                 obj->SDim == 1 &&
                 in(obj->SDataType, dt_set, dt_alias) &&
+                !(obj->SDataType == dt_alias && !obj->SUserInfo) && // alias of the universe
                 !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
             {
                ReportError( ERR_NODOMAINDATA );
-- 
2.43.0


From 46a383a7e6a810334044faddc2c34f8150e1f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:44 +0000
Subject: [PATCH 20/64] fix: report failing allocations of tables and buffers
 instead of using a null pointer

---
 src/gdlib/gmsdata.hpp | 22 +++++++---------------
 src/gdlib/gmsobj.hpp  | 25 +++++++++++++------------
 src/gdlib/gmsstrm.cpp |  2 ++
 src/gxfile.cpp        | 14 ++++----------
 4 files changed, 26 insertions(+), 37 deletions(-)

diff --git a/src/gdlib/gmsdata.hpp b/src/gdlib/gmsdata.hpp
index fc4f52d..c7ed78c 100644
--- a/src/gdlib/gmsdata.hpp
+++ b/src/gdlib/gmsdata.hpp
@@ -177,24 +177,16 @@ public:
    {
       if( !PCurrentBuf || PCurrentBuf->BytesUsed + FSize > BufSize )
       {
-         BaseUsed++;
-         if( BaseUsed >= BaseAllocated )
+         if( BaseUsed + 1 >= BaseAllocated )
          {
-            if( !BaseAllocated ) BaseAllocated = 32;
-            else
-               BaseAllocated *= 2;
-            const size_t newByteCount { BaseAllocated * sizeof( uint8_t * ) };
-            if( !PBase ) PBase = static_cast<TGADataBuffer **>( std::malloc( newByteCount ) );
-            else
-            {
-               const auto PBaseRA = static_cast<TGADataBuffer **>( std::realloc( PBase, newByteCount ) );
-               if( !PBaseRA && PBase )
-                  std::free( PBase );
-               PBase = PBaseRA;
-            }
-            assert( PBase );
+            const auto newAllocated = !BaseAllocated ? 32 : BaseAllocated * 2;
+            const auto PBaseRA = static_cast<TGADataBuffer **>( std::realloc( PBase, newAllocated * sizeof( uint8_t * ) ) );
+            if( !PBaseRA ) throw std::bad_alloc {};
+            PBase = PBaseRA;
+            BaseAllocated = newAllocated;
          }
          PCurrentBuf = new TGADataBuffer;
+         BaseUsed++;
          assert( BaseUsed >= 0 );
          if( BaseUsed >= 0 )
             PBase[BaseUsed] = PCurrentBuf;
diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 5f033c1..35a64bb 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -29,6 +29,7 @@
 #include <cstdint>
 #include <cassert>
 #include <limits>
+#include <new>
 #include "utils.hpp"
 #include "strutilx.hpp"
 
@@ -195,21 +196,15 @@ public:
       if( NewCapacity < FCount )
          NewCapacity = FCount;
       FListMemory = sizeof( T * ) * NewCapacity;
-      if( !FList )
-      {
-         if(FListMemory > 0)
-            FList = static_cast<T **>( std::malloc( FListMemory ) );
-      }
-      else if(!NewCapacity )
+      if(!NewCapacity )
       {
          std::free( FList );
          FList = nullptr;
       }
-      else if( FListMemory > 0 )
+      else
       {
          const auto FListRA = static_cast<T **>( std::realloc( FList, FListMemory ) );
-         if( !FListRA && FList )
-            std::free( FList );
+         if( !FListRA ) throw std::bad_alloc {};
          FList = FListRA;
       }
       FCapacity = NewCapacity;
@@ -471,14 +466,17 @@ public:
       if( NewCapacity == FCapacity ) return;
       if( NewCapacity < FCount ) NewCapacity = FCount;
       FListMemory = sizeof( TStringItem<T> ) * NewCapacity;
-      if( !FList ) FList = static_cast<TStringItem<T> *>( std::malloc( FListMemory ) );
-      else if( !FListMemory )
+      if( !FListMemory )
       {// TODO: Isn't std::realloc(FList, 0) doing the same?
          std::free( FList );
          FList = nullptr;
       }
       else
-         FList = static_cast<TStringItem<T> *>( std::realloc( FList, FListMemory ) );
+      {
+         const auto FListRA = static_cast<TStringItem<T> *>( std::realloc( FList, FListMemory ) );
+         if( !FListRA ) throw std::bad_alloc {};
+         FList = FListRA;
+      }
       FCapacity = NewCapacity;
    }
 
@@ -700,12 +698,14 @@ protected:
       // NOLINTNEXTLINE(bugprone-sizeof-expression)
       hashBytes = sizeof( PHashRecord ) * hashCount;
       pHashSC = static_cast<PHashRecord *>( std::malloc( hashBytes ) );
+      if( !pHashSC ) throw std::bad_alloc {};
       std::memset( pHashSC, 0, hashBytes );
       for( int n { this->OneBased ? 1 : 0 }; n <= this->FCount - 1 + ( this->OneBased ? 1 : 0 ); n++ )
       {
          const char *name { this->GetName( n ) };
          const auto hv { hashValue( name, std::strlen( name ) ) };
          const auto PH = static_cast<PHashRecord>( std::malloc( sizeof( THashRecord ) ) );
+         if( !PH ) throw std::bad_alloc {};
          PH->PNext = pHashSC[hv];
          PH->RefNr = n - ( this->OneBased ? 1 : 0 );
          pHashSC[hv] = PH;
@@ -754,6 +754,7 @@ public:
       int res { this->FCount + ( this->OneBased ? 1 : 0 ) };
       TXCustomStringList<T>::InsertItem( res, s, slen, APointer );
       PH = static_cast<PHashRecord>( std::malloc( sizeof( THashRecord ) ) );
+      if( !PH ) throw std::bad_alloc {};
       hashBytes += sizeof( THashRecord );
       PH->PNext = pHashSC[hv];
       PH->RefNr = res - ( this->OneBased ? 1 : 0 );
diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 1a9900d..69b6cc5 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -30,6 +30,7 @@
 #include <cmath>                 // for round, abs
 #include <cstdint>               // for uint32_t, uint8_t, int64_t, uint16_t
 #include <cstdlib>               // for malloc, abs, free
+#include <new>                   // for bad_alloc
 #include <cstring>               // for memcpy, strerror
 #include <functional>            // for function
 #include <stdexcept>             // for runtime_error
@@ -687,6 +688,7 @@ TBufferedFileStream::TBufferedFileStream( const std::string &FileName, uint16_t
       FCompress {},
       FCanCompress { true }// no longer a fatal error
 {
+   if( !CBufPtr ) throw std::bad_alloc {};
 }
 
 TBufferedFileStream::~TBufferedFileStream()
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 56e7a70..df9e26e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -4103,18 +4103,12 @@ void TIntegerMapping::growMapping( int F )
       currCap += delta;
       if( currCap > FMAXCAPACITY ) currCap = FMAXCAPACITY;
    }
+   void *p = std::realloc( PMap, currCap * sizeof( int ) );
+   if( !p ) throw std::bad_alloc {};
+   PMap = static_cast<int *>( p );
    FCapacity = currCap;
    FMapBytes = static_cast<int64_t>( FCapacity * sizeof( int ) );
-   assert(FMapBytes);
-   if( !PMap ) PMap = static_cast<int *>( std::malloc( FMapBytes ) );
-   else
-   {
-      void *p = std::realloc( PMap, FMapBytes );
-      if( p ) PMap = static_cast<int *>( p );
-   }
-   assert( PMap && "Problem allocating memory for integer mapping!" );
-   if( PMap )
-      std::memset( &PMap[prevCap], -1, sizeof( int ) * ( FCapacity - prevCap ) );
+   std::memset( &PMap[prevCap], -1, sizeof( int ) * ( FCapacity - prevCap ) );
 }
 
 TIntegerMapping::~TIntegerMapping()
-- 
2.43.0


From ca090fe4ad2c6a39f53a153d59bdf5e5a17e583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:54 +0000
Subject: [PATCH 21/64] fix: do not drop a block when compressing it fails (out
 of memory), store it uncompressed

---
 src/gdlib/gmsstrm.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 69b6cc5..a0c847c 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -711,8 +711,7 @@ bool TBufferedFileStream::FlushBuffer()
    else
    {
       auto Len { static_cast<long unsigned int>(CBufSize - sizeof( TCompressHeader )) };
-      compress( &CBufPtr->cxData, &Len, BufPtr.data(), NrWritten );
-      if( Len < NrWritten )
+      if( compress( &CBufPtr->cxData, &Len, BufPtr.data(), NrWritten ) == Z_OK && Len < NrWritten )
       {
          CBufPtr->cxHeader.cxTyp = 1;// indicates compressed
          CBufPtr->cxHeader.cxB1 = static_cast<uint8_t>( Len >> 8 );
-- 
2.43.0


From 0651ffded87bb612c00fc5cfcb14e3b557c19cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:33 +0000
Subject: [PATCH 22/64] fix: opening: refuse a symbol table with impossible
 dimensions, stop reading comments at the end of the file

---
 src/gxfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index df9e26e..0e4584d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1995,6 +1995,12 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       CurSyPtr = new TgdxSymbRecord {};
       CurSyPtr->SPosition = VersionRead <= 5 ? FFile->ReadInteger() : FFile->ReadInt64();
       CurSyPtr->SDim = FFile->ReadInteger();
+      if( ErrorCondition( CurSyPtr->SDim >= 0 && CurSyPtr->SDim <= GLOBAL_MAX_INDEX_DIM, ERR_BADDATAFORMAT ) )
+      {
+         delete CurSyPtr;
+         CurSyPtr = nullptr;
+         return FileErrorNr();
+      }
       uint8_t B { FFile->ReadByte() };
       CurSyPtr->SDataType = static_cast<gdxSyType>( B );
       CurSyPtr->SUserInfo = FFile->ReadInteger();
@@ -2018,7 +2024,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
          if( NrElem > 0 )
          {
             CurSyPtr->SCommentsList = std::make_optional<TCommentsList>();
-            for( ; NrElem > 0; NrElem-- )
+            for( ; NrElem > 0 && !FFile->HasIOError(); NrElem-- )
             {
                sstring s;
                uint8_t slen;
-- 
2.43.0


From f5444aa29706116b2568b175b2d9d2409182b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:55 +0000
Subject: [PATCH 23/64] fix: string tables: stay consistent when memory for an
 entry cannot be obtained

---
 src/gdlib/strhash.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index a672173..bb8aae5 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -286,6 +286,11 @@ public:
       auto PBuck = reinterpret_cast<PHashBucket<T>>( batchAllocator.GetBytes( sizeof( THashBucket<T> ) ) );
 #else
       PHashBucket<T> PBuck = new THashBucket<T> {};
+#endif
+#ifdef TSH_BATCH_ALLOCS
+      PBuck->StrP = reinterpret_cast<char *>( batchStrAllocator.GetBytes( slen + 1 ) );
+#else
+      PBuck->StrP = new char[slen + 1];
 #endif
       Buckets.emplace_back( PBuck );
       PBuck->NextBucket = nullptr;
@@ -297,11 +302,6 @@ public:
          FSorted = false;
       }
       FCount++;// ugly
-#ifdef TSH_BATCH_ALLOCS
-      PBuck->StrP = reinterpret_cast<char *>( batchStrAllocator.GetBytes( slen + 1 ) );
-#else
-      PBuck->StrP = new char[slen + 1];
-#endif
       utils::assignPCharToBuf( s, (int) slen, PBuck->StrP, (int) slen + 1 );
       PBuck->Obj = std::move( AObj );
       return res;
@@ -323,6 +323,11 @@ public:
       PBuck = reinterpret_cast<PHashBucket<T>>( batchAllocator.GetBytes( sizeof( THashBucket<T> ) ) );
 #else
       PBuck = new THashBucket<T> {};
+#endif
+#ifdef TSH_BATCH_ALLOCS
+      PBuck->StrP = reinterpret_cast<char *>( batchStrAllocator.GetBytes( slen + 1 ) );
+#else
+      PBuck->StrP = new char[slen + 1];
 #endif
       Buckets.emplace_back( PBuck );
       PBuck->NextBucket = GetBucketByHash( HV );
@@ -335,11 +340,6 @@ public:
          FSorted = false;
       }
       FCount++;// ugly
-#ifdef TSH_BATCH_ALLOCS
-      PBuck->StrP = reinterpret_cast<char *>( batchStrAllocator.GetBytes( slen + 1 ) );
-#else
-      PBuck->StrP = new char[slen + 1];
-#endif
       utils::assignPCharToBuf( s, slen, PBuck->StrP, slen + 1 );
       PBuck->Obj = std::move( AObj );
       return res;
-- 
2.43.0


From 41a0271743d9033142490f205a84fd2be0e4a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:22 +0000
Subject: [PATCH 24/64] fix: reading: do not look up set text numbers past the
 end of the map for repeated texts

---
 src/gdx.hpp                         | 1 +
 src/gxfile.cpp                      | 3 ++-
 src/templates/gdxheader.template.j2 | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 884cf60..11de770 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1760,6 +1760,7 @@ int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
 std::unique_ptr<int[]> MapSetText {};
+int MapSetTextCount {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0e4584d..7d91649 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1490,7 +1490,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
          // NOTE: Not covered by unit tests yet.
          const double X { AVals[GMS_VAL_LEVEL] };
          if( const int D { ( utils::round<int>( X ) ) };
-            std::abs( X - D ) < 1e-12 && D >= 0 && D <= SetTextList->GetCapacity() )
+            std::abs( X - D ) < 1e-12 && D >= 0 && D < MapSetTextCount )
             AVals[GMS_VAL_LEVEL] = MapSetText[D];
       }
       if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -2090,6 +2090,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
             if( !MapSetText )
             {
                MapSetText = std::make_unique<int[]>( NrElem );
+               MapSetTextCount = NrElem;
                for( int D {}; D < N; D++ )
                   MapSetText[D] = D;
             }
diff --git a/src/templates/gdxheader.template.j2 b/src/templates/gdxheader.template.j2
index 92788df..90f9f46 100644
--- a/src/templates/gdxheader.template.j2
+++ b/src/templates/gdxheader.template.j2
@@ -134,6 +134,7 @@ int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
 std::unique_ptr<int[]> MapSetText {};
+int MapSetTextCount {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
-- 
2.43.0


From b3e39911a55bf78c1561c7f240a37dde2669f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:41 +0000
Subject: [PATCH 25/64] fix: gdxOpenAppend: refuse files of the other byte
 order or with repeated set texts instead of corrupting them

---
 src/gxfile.cpp                      | 4 +++-
 src/templates/gdxheader.template.j2 | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7d91649..c497cc6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3493,7 +3493,9 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    AppendActive = true;
    const int res { gdxOpenReadXX( FileName, fmOpenReadWrite, 0, ErrNr ) };
    if( !res || ErrNr != 0 ) return res;
-   if( VersionRead < 7 )
+   // besides files of old versions: what gets appended is in the byte order of this machine and uses the
+   // text numbers after repeated texts were merged, both must match what the file already contains
+   if( VersionRead < 7 || FFile->WordsNeedFlip() || FFile->IntsNeedFlip() || MapSetText )
    {
       ReportError( ERR_FILETOOLDFORAPPEND );
       gdxClose();
diff --git a/src/templates/gdxheader.template.j2 b/src/templates/gdxheader.template.j2
index 90f9f46..d3f6667 100644
--- a/src/templates/gdxheader.template.j2
+++ b/src/templates/gdxheader.template.j2
@@ -161,6 +161,7 @@ std::string FProducer, FProducer2, FileSystemID;
 int64_t MajorIndexPosition {};
 int64_t NextWritePosition {};
 int DataCount {}, NrMappedAdded {};
+bool DataReadFailed {}, DataReadEnded {};
 std::array<TgdxElemSize, GLOBAL_MAX_INDEX_DIM> ElemType {};
 std::string MajContext;
 std::array<TIntegerMapping, GLOBAL_MAX_INDEX_DIM> SliceIndxs {}, SliceRevMap {};
@@ -194,6 +195,8 @@ TDomainIndexProc_t gdxGetDomainElements_DP {};
 bool PrepareSymbolWrite( std::string_view Caller, const char *AName, const char *AText, int ADim, int AType, int AUserInfo );
 int PrepareSymbolRead( std::string_view Caller, int SyNr, const int *ADomainNrs, TgxFileMode newmode );
 
+void FreeFileData();
+
 void InitErrors();
 void SetError( int N );
 void ReportError( int N );
-- 
2.43.0


From 651dff85fc269d57d0907c5e6bea65c118b6086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:17 +0000
Subject: [PATCH 26/64] fix: gdxDataReadMap: no records after the one of a
 scalar without stored data

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index c497cc6..812067f 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2853,7 +2853,7 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    if( fmode == fr_map_data )
    {
       DimFrst = 0;
-      if( !ReadPtr || !SortList->GetNextRecord( &*ReadPtr, KeyInt, Values ) ) return false;
+      if( !SortList || !ReadPtr || !SortList->GetNextRecord( &*ReadPtr, KeyInt, Values ) ) return false;
       // checking mapped values
       for( int D {}; D < FCurrentDim; D++ )
       {
-- 
2.43.0


From 632d37ba44715fe5a3269194b9e45d59fb6e5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:46 +0000
Subject: [PATCH 27/64] fix: gdxDataReadRawFastFilt: a refused call does not
 end a running slice session

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 812067f..dda6bbd 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3717,8 +3717,8 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
          }
          res = !DataReadFailed;
       }
+      gdxDataReadDone();
    }
-   gdxDataReadDone();
    return res;
 }
 
-- 
2.43.0


From 2cc89fa32e7c643d90bf1ade79559825c971a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:04 +0000
Subject: [PATCH 28/64] fix: filtered reads: decide whether the result is
 sorted with the user map in force, not the one at filter registration

---
 src/gdx.hpp                         |  1 +
 src/gxfile.cpp                      | 34 ++++++++++++-----------------
 src/gxfile.hpp                      |  1 -
 src/templates/gdxheader.template.j2 |  1 +
 4 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 11de770..95e6c0b 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1843,6 +1843,7 @@ void AddToErrorList( const int *AElements, const double *AVals );
 void GetDefaultRecord( double *Avals ) const;
 double AcronymRemap( double V );
 bool IsGoodNewSymbol( const char *s );
+bool FilteredMapIsSorted( const TDFilter &Filter ) const;
 bool ResultWillBeSorted( const int *ADomainNrs ) const;
 
 int gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int &ErrNr );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index dda6bbd..9eef70f 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1587,6 +1587,18 @@ void TGXFileObj::AddToErrorList( const int *AElements, const double *AVals )
    ErrorList->AddRecord( AElements, AVals );
 }
 
+bool TGXFileObj::FilteredMapIsSorted( const TDFilter &Filter ) const
+{
+   for( int N { 1 }, LV { -1 }; N <= UELTable->size(); N++ )
+   {
+      const int V { UELTable->GetUserMap( N ) };
+      if( !Filter.InFilter( V ) ) continue;
+      if( V <= LV ) return false;
+      LV = V;
+   }
+   return true;
+}
+
 bool TGXFileObj::ResultWillBeSorted( const int *ADomainNrs ) const
 {
    for( int D {}; D < FCurrentDim; D++ )
@@ -1613,9 +1625,8 @@ bool TGXFileObj::ResultWillBeSorted( const int *ADomainNrs ) const
             break;
          default:
             if( UELTable->GetMapToUserStatus() >= TUELUserMapStatus::map_sorted ) continue;
-            if(  const TDFilter *PFilter = FilterList->FindFilter( ADomainNrs[D] );
-               !PFilter->FiltSorted )
-               return false;
+            // the user map may have changed since the filter was registered
+            if( !FilteredMapIsSorted( *FilterList->FindFilter( ADomainNrs[D] ) ) ) return false;
             break;
       }
    }
@@ -3124,23 +3135,6 @@ int TGXFileObj::gdxFilterRegisterDone()
 {
    if( !MajorCheckMode( "FilterRegisterDone"s, fr_filter ) ) return false;
    fmode = fr_init;
-   CurFilter->FiltSorted = true;
-   if( UELTable && UELTable->GetMapToUserStatus() == TUELUserMapStatus::map_unsorted )
-   {
-      int LV { -1 };
-      for( int N { 1 }; N <= UELTable->size(); N++ )
-      {
-         const int V { UELTable->GetUserMap( N ) };
-         if( !CurFilter->InFilter( V ) ) continue;
-         if( V <= LV )
-         {
-            // NOTE: Not covered by unit tests yet.
-            CurFilter->FiltSorted = false;
-            break;
-         }
-         LV = V;
-      }
-   }
    CurFilter = nullptr;
    return true;
 }
diff --git a/src/gxfile.hpp b/src/gxfile.hpp
index 1e638bd..907f19d 100644
--- a/src/gxfile.hpp
+++ b/src/gxfile.hpp
@@ -87,7 +87,6 @@ const std::string BADUEL_PREFIX = "?L__",
 struct TDFilter final {
    int FiltNumber {}, FiltMaxUel {};
    gdlib::gmsobj::TBooleanBitArray FiltMap {};
-   bool FiltSorted {};
 
    TDFilter( int Nr, int UserHigh ) : FiltNumber { Nr },
                                       FiltMaxUel { UserHigh }
diff --git a/src/templates/gdxheader.template.j2 b/src/templates/gdxheader.template.j2
index d3f6667..d76e4a9 100644
--- a/src/templates/gdxheader.template.j2
+++ b/src/templates/gdxheader.template.j2
@@ -218,6 +218,7 @@ void AddToErrorList( const int *AElements, const double *AVals );
 void GetDefaultRecord( double *Avals ) const;
 double AcronymRemap( double V );
 bool IsGoodNewSymbol( const char *s );
+bool FilteredMapIsSorted( const TDFilter &Filter ) const;
 bool ResultWillBeSorted( const int *ADomainNrs ) const;
 
 int gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int &ErrNr );
-- 
2.43.0


From 6cdd01026f26727eb56ef76cd1d6c3fb08c7d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:48 +0000
Subject: [PATCH 29/64] fix: opening: stop reading acronyms and domain names at
 the end of the file

---
 src/gdlib/gmsstrm.hpp | 4 +++-
 src/gdlib/strhash.hpp | 6 +++---
 src/gxfile.cpp        | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index a0c1444..495e157 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -155,6 +155,8 @@ public:
 
    virtual uint32_t Read( void *Buffer, uint32_t Count ) = 0;
    virtual uint32_t Write( const void *Buffer, uint32_t Count ) = 0;
+   // an earlier read or write failed (streams that cannot fail: never)
+   [[nodiscard]] virtual bool HasIOError() const { return false; }
 
    void WriteString( std::string_view s );
 
@@ -226,7 +228,7 @@ public:
    void SetLastIOResult( int V );
    int GetLastIOResult();
    // Same as GetLastIOResult() != 0 without clearing the result
-   [[nodiscard]] bool HasIOError() const { return FLastIOResult != 0; }
+   [[nodiscard]] bool HasIOError() const override { return FLastIOResult != 0; }
 
    void SetPassWord( const std::string &s );
    [[nodiscard]] bool GetUsesPassWord() const;
diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index bb8aae5..303142d 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -375,7 +375,7 @@ public:
       Clear();
       const int Cnt { s.ReadInteger() };
       SetCapacity( Cnt );
-      for( int N {}; N < Cnt; N++ )
+      for( int N {}; N < Cnt && !s.HasIOError(); N++ )
       {
          uint8_t slen;
          const char * str {s.ReadSString(slen)};
@@ -532,7 +532,7 @@ void TXStrHashList<uint8_t>::LoadFromStream( T2 &s )
    Clear();
    const int Cnt { s.ReadInteger() };
    SetCapacity( Cnt );
-   for( int N {}; N < Cnt; N++ )
+   for( int N {}; N < Cnt && !s.HasIOError(); N++ )
    {
       char sbuf[256];
       uint8_t slen;
@@ -548,7 +548,7 @@ inline void TXStrHashList<int>::LoadFromStream( T2 &s )
    Clear();
    const int Cnt { s.ReadInteger() };
    SetCapacity( Cnt );
-   for( int N {}; N < Cnt; N++ )
+   for( int N {}; N < Cnt && !s.HasIOError(); N++ )
    {
       uint8_t slen;
       char sbuf[256];
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9eef70f..b459746 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -4023,7 +4023,7 @@ void TAcronymList::LoadFromStream( TXStream &S )
    FList.SetCapacity( Cnt );
    if(useBatchAlloc)
       batchAlloc.SetFirstBatchSize( Cnt * sizeof(TAcronym) );
-   while( FList.GetCount() < Cnt )
+   while( FList.GetCount() < Cnt && !S.HasIOError() )
    {
       TAcronym *acro = useBatchAlloc ? new (batchAlloc.GetBytes<TAcronym>()) TAcronym { S } : new TAcronym { S };
       FList.Add( acro );
-- 
2.43.0


From 079b66a5dcee930c066f425bc10b9dc329099c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:12 +0000
Subject: [PATCH 30/64] fix: gdxOpenRead: forget elements mapped by a read
 abandoned in an earlier session

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index b459746..a0b5f33 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1907,6 +1907,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    TraceLevel = defaultTraceLevel;
    fmode = f_not_open;
    ReadPtr = std::nullopt;
+   NrMappedAdded = 0;// of a read abandoned in an earlier session
    InitErrors();
 
    if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
-- 
2.43.0


From b5cd09f32a722ea5767b402f3f41dd9c79bfefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 31/64] fix: opening: damaged counts and positions no longer
 exhaust the memory

---
 src/gdlib/strhash.hpp               |  7 +++---
 src/gdx.hpp                         |  3 +--
 src/gxfile.cpp                      | 34 ++++++++++++++++-------------
 src/templates/gdxheader.template.j2 |  3 +--
 4 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index 303142d..8ece376 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -32,6 +32,7 @@
 #include "datastorage.hpp"
 #include "gmsdata.hpp"
 
+#include <algorithm>
 #include <vector>
 #include <string>
 #include <cassert>
@@ -374,7 +375,7 @@ public:
    {
       Clear();
       const int Cnt { s.ReadInteger() };
-      SetCapacity( Cnt );
+      SetCapacity( std::min( Cnt, 65536 ) );// the count may be damaged, the table grows as needed
       for( int N {}; N < Cnt && !s.HasIOError(); N++ )
       {
          uint8_t slen;
@@ -531,7 +532,7 @@ void TXStrHashList<uint8_t>::LoadFromStream( T2 &s )
 {
    Clear();
    const int Cnt { s.ReadInteger() };
-   SetCapacity( Cnt );
+   SetCapacity( std::min( Cnt, 65536 ) );// the count may be damaged, the table grows as needed
    for( int N {}; N < Cnt && !s.HasIOError(); N++ )
    {
       char sbuf[256];
@@ -547,7 +548,7 @@ inline void TXStrHashList<int>::LoadFromStream( T2 &s )
 {
    Clear();
    const int Cnt { s.ReadInteger() };
-   SetCapacity( Cnt );
+   SetCapacity( std::min( Cnt, 65536 ) );// the count may be damaged, the table grows as needed
    for( int N {}; N < Cnt && !s.HasIOError(); N++ )
    {
       uint8_t slen;
diff --git a/src/gdx.hpp b/src/gdx.hpp
index 95e6c0b..9eddb70 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1759,8 +1759,7 @@ enum : uint8_t
 int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
-std::unique_ptr<int[]> MapSetText {};
-int MapSetTextCount {};
+std::vector<int> MapSetText {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a0b5f33..4531aee 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -38,6 +38,7 @@
 #include <iostream> // for operator<<, basic_ostream, cout, ostream
 #endif
 #include <map>      // for map, operator==, _Rb_tree_const_iterator
+#include <numeric>  // for iota
 #include <utility>  // for pair
 
 #if defined( _WIN32 )
@@ -675,7 +676,7 @@ void TGXFileObj::FreeFileData()
    ErrorList = nullptr;
    FilterList = nullptr;
    AcronymList = nullptr;
-   MapSetText = nullptr;
+   MapSetText.clear();
 }
 
 void TGXFileObj::InitErrors()
@@ -1485,12 +1486,12 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
    if( FFile->HasIOError() ) return readFailed( ERR_FILEERROR );
    if( DataSize > 0 )
    {
-      if( MapSetText && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
+      if( !MapSetText.empty() && AVals[GMS_VAL_LEVEL] != 0.0 && CurSyPtr->SDataType == dt_set )
       {// remap settext number
          // NOTE: Not covered by unit tests yet.
          const double X { AVals[GMS_VAL_LEVEL] };
          if( const int D { ( utils::round<int>( X ) ) };
-            std::abs( X - D ) < 1e-12 && D >= 0 && D < MapSetTextCount )
+            std::abs( X - D ) < 1e-12 && D >= 0 && D < static_cast<int>( MapSetText.size() ) )
             AVals[GMS_VAL_LEVEL] = MapSetText[D];
       }
       if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -1992,10 +1993,13 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    FFile->SetCompression( DoUncompress );
    FFile->SetPosition( SymbPos );
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER1 ) ) return FileErrorNr();
+   // counts and sizes may be damaged: reserve memory for them only within reason, the tables grow as needed
+   const auto reserveCount = []( int n ) { return std::clamp( n, 0, 1 << 20 ); };
+   const auto reserveBytes = []( int64_t n ) { return static_cast<size_t>( std::clamp<int64_t>( n, 0, 1 << 26 ) ); };
    int NrElem { FFile->ReadInteger() };
    NameList = std::make_unique<TNameList>();
    NameList->OneBased = true;
-   NameList->SetCapacity( NrElem );
+   NameList->SetCapacity( reserveCount( NrElem ) );
    AcronymList = std::make_unique<TAcronymList>(true);
    FilterList = std::make_unique<TFilterList>();
    const int NrElemsOfSym = NrElem;
@@ -2062,7 +2066,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    NrElem = FFile->ReadInteger();
    // subtract 2*6 bytes for MARK_UEL ("_UEL_\0") and 4 bytes for UEL count integer
    const auto uelLabelStrBytes { VersionRead >= 7 ? AcronymPos-UELPos - 6 * 2 - 4 : 0 };
-   UELTable->SetCapacity( NrElem, uelLabelStrBytes );
+   UELTable->SetCapacity( reserveCount( NrElem ), reserveBytes( uelLabelStrBytes ) );
    // bug for pre 2002
    if( substr( FileSystemID, 15, 4 ) == "2001"s ) NrElem--;
 
@@ -2089,7 +2093,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       // set text table (when there) is always before UEL table
       // subtract bytes for length (4-byte) and twice 7 chars MARK_SETT (_SETT_\0)
       const auto setTextStrBytes { UELPos - SetTextPos - 7 * 2 - 4 };
-      SetTextList->SetCapacity( NrElem, setTextStrBytes );
+      SetTextList->SetCapacity( reserveCount( NrElem ), reserveBytes( setTextStrBytes ) );
       for( int N {}; N < NrElem && !FFile->HasIOError(); N++ )
       {
          uint8_t slen;
@@ -2099,14 +2103,12 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
             TextNum != N )
          {// duplicates stored in GDX file, e.g. empty string
             // NOTE: Not covered by unit tests yet.
-            if( !MapSetText )
+            if( MapSetText.empty() )
             {
-               MapSetText = std::make_unique<int[]>( NrElem );
-               MapSetTextCount = NrElem;
-               for( int D {}; D < N; D++ )
-                  MapSetText[D] = D;
+               MapSetText.resize( N );
+               std::iota( MapSetText.begin(), MapSetText.end(), 0 );
             }
-            MapSetText[N] = TextNum;
+            MapSetText.push_back( TextNum );
          }
       }
       if( ErrorCondition( FFile->ReadString() == MARK_SETT, ERR_OPEN_TEXTMARKER2 ) ) return FileErrorNr();
@@ -3490,7 +3492,7 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    if( !res || ErrNr != 0 ) return res;
    // besides files of old versions: what gets appended is in the byte order of this machine and uses the
    // text numbers after repeated texts were merged, both must match what the file already contains
-   if( VersionRead < 7 || FFile->WordsNeedFlip() || FFile->IntsNeedFlip() || MapSetText )
+   if( VersionRead < 7 || FFile->WordsNeedFlip() || FFile->IntsNeedFlip() || !MapSetText.empty() )
    {
       ReportError( ERR_FILETOOLDFORAPPEND );
       gdxClose();
@@ -4021,9 +4023,11 @@ void TAcronymList::LoadFromStream( TXStream &S )
 {
    const int Cnt { S.ReadInteger() };
    FList.Clear();
-   FList.SetCapacity( Cnt );
+   // the count may be damaged: reserve for it only within reason
+   const int Reserve { std::clamp( Cnt, 0, 65536 ) };
+   FList.SetCapacity( Reserve );
    if(useBatchAlloc)
-      batchAlloc.SetFirstBatchSize( Cnt * sizeof(TAcronym) );
+      batchAlloc.SetFirstBatchSize( Reserve * sizeof(TAcronym) );
    while( FList.GetCount() < Cnt && !S.HasIOError() )
    {
       TAcronym *acro = useBatchAlloc ? new (batchAlloc.GetBytes<TAcronym>()) TAcronym { S } : new TAcronym { S };
diff --git a/src/templates/gdxheader.template.j2 b/src/templates/gdxheader.template.j2
index d76e4a9..cd4c4a3 100644
--- a/src/templates/gdxheader.template.j2
+++ b/src/templates/gdxheader.template.j2
@@ -133,8 +133,7 @@ enum : uint8_t
 int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
-std::unique_ptr<int[]> MapSetText {};
-int MapSetTextCount {};
+std::vector<int> MapSetText {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
-- 
2.43.0


From 822a5778cda021ae2d1e3114778809179b72464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:17 +0000
Subject: [PATCH 32/64] fix: mapped reads and domain queries refuse element
 numbers outside the element table

---
 src/gxfile.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4531aee..a88d49c 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1040,7 +1040,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 )
+                  if( LastElem[D] < 0 || ( obj.DAction != TgdxDAction::dm_unmapped && ( !LastElem[D] || LastElem[D] > UELTable->size() ) ) )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
@@ -2900,7 +2900,7 @@ again:
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
          // AS: Should this also be appended to the data error list???
-         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) || ( !LastElem[D] && obj.DAction != TgdxDAction::dm_unmapped ) )
          {
             ReportError( ERR_BADELEMENTINDEX );
             BadError = true;
@@ -2955,7 +2955,7 @@ again:
    {
       for( int D {}; D < FCurrentDim; D++ )
       {
-         if( LastElem[D] < 0 )
+         if( LastElem[D] < 0 || LastElem[D] > UELTable->size() || ( !LastElem[D] && DomainList[D].DAction != TgdxDAction::dm_unmapped ) )
          {
             // NOTE: Not covered by unit tests yet.
             ReportError( ERR_BADELEMENTINDEX );
@@ -3187,6 +3187,12 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    {
       assert( DimPos >= 1 && DimPos <= GLOBAL_MAX_INDEX_DIM );
       const int RawNr { LastElem[DimPos - 1] };
+      if( ( DFilter || DP ) && ( RawNr < 1 || RawNr > UELTable->size() ) )
+      {
+         ReportError( ERR_BADELEMENTINDEX );
+         gdxDataReadDone();
+         return false;
+      }
       if( DFilter )
       {
          if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
-- 
2.43.0


From f49dee80641e0047c065692b2387a57c8c397c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:24 +0000
Subject: [PATCH 33/64] fix: automatic conversion passes any file name to the
 converter as one word

The file name was only quoted when it contains a space, so the shell took
other special characters apart and the converter ran on a different file.
---
 src/gxfile.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a88d49c..ee12510 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -298,6 +298,22 @@ static int SystemP( const std::string &cmd, int &ProgRC )
    return res;
 }
 
+// the file name as one word of a command line
+static std::string quoteFileName( const std::string &fn )
+{
+#if defined( _WIN32 )
+   return quoteWhitespace( fn, '\"' );
+#else
+   const std::string special { " \t\n'\"\\$`!*?[](){}<>|&;#~" };
+   if( fn.find_first_of( special ) == std::string::npos ) return fn;
+   std::string res { "'" };
+   for( const char c: fn )
+      if( c == '\'' ) res += "'\\''"s;
+      else res += c;
+   return res + '\'';
+#endif
+}
+
 int ConvertGDXFile( const std::string &fn, const std::string &MyComp )
 {
    std::string Conv { trim( uppercase( QueryEnvironmentVariable( strGDXCONVERT ) ) ) };
@@ -305,7 +321,7 @@ int ConvertGDXFile( const std::string &fn, const std::string &MyComp )
    const std::string Comp = Conv == "V5" ? ""s : ( !GetEnvCompressFlag() ? "U" : "C" );
    if( sameText( Conv + Comp, "V7"s + MyComp ) ) return 0;
    int progRC;
-   const int res { SystemP( "gdxcopy -"s + Conv + Comp + " -Replace "s + quoteWhitespace( fn, '\"' ), progRC ) };
+   const int res { SystemP( "gdxcopy -"s + Conv + Comp + " -Replace "s + quoteFileName( fn ), progRC ) };
    return progRC ? ERR_GDXCOPY - progRC : res;
 }
 
-- 
2.43.0


From df76ebfa536c113ff14a8dbb6f721d8f1af56e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 34/64] fix: the library is not unloaded while an object is
 being created

gdxCreate counted its object only after using the library, and
gdxLibraryUnload decided and unloaded under two different locks, so another
thread could unload the library in between.
---
 generated/gdxcc.c | 54 +++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index be8f778..7cf8e29 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -2022,21 +2022,30 @@ int gdxGetReadyL (const char *libName, char *msgBuf, int msgBufSize)
   return rc;
 } /* gdxGetReadyL */
 
+/* objects are counted before the library is used, so that it cannot be unloaded meanwhile */
+static void uncountObject(void)
+{
+  lock(objMutex);
+  objectCount--;
+  unlock(objMutex);
+}
+
 int gdxCreate (gdxHandle_t *pgdx, char *msgBuf, int msgBufSize)
 {
   int gdxIsReady;
 
+  lock(objMutex);
+  objectCount++;
+  unlock(objMutex);
   gdxIsReady = gdxGetReady (msgBuf, msgBufSize);
   if (! gdxIsReady) {
+    uncountObject();
     return 0;
   }
   assert(XCreate);
   XCreate(pgdx);
-  if(pgdx == NULL)
-  { strcpy(msgBuf,"Error while creating object"); return 0; }
-  lock(objMutex);
-  objectCount++;
-  unlock(objMutex);
+  if(*pgdx == NULL)
+  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreate */
 
@@ -2045,17 +2054,18 @@ int gdxCreateD (gdxHandle_t *pgdx, const char *dirName,
 {
   int gdxIsReady;
 
+  lock(objMutex);
+  objectCount++;
+  unlock(objMutex);
   gdxIsReady = gdxGetReadyD (dirName, msgBuf, msgBufSize);
   if (! gdxIsReady) {
+    uncountObject();
     return 0;
   }
   assert(XCreate);
   XCreate(pgdx);
-  if(pgdx == NULL)
-  { strcpy(msgBuf,"Error while creating object"); return 0; }
-  lock(objMutex);
-  objectCount++;
-  unlock(objMutex);
+  if(*pgdx == NULL)
+  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreateD */
 
@@ -2063,17 +2073,18 @@ int gdxCreateDD (gdxHandle_t *pgdx, const char *dirName,
                 char *msgBuf, int msgBufSize)
 {
   int gdxIsReady;
+  lock(objMutex);
+  objectCount++;
+  unlock(objMutex);
   gdxIsReady = gdxGetReadyD (dirName, msgBuf, msgBufSize);
   if (! gdxIsReady) {
+    uncountObject();
     return 0;
   }
   assert(XCreateD);
   XCreateD(pgdx, dirName);
-  if(pgdx == NULL)
-  { strcpy(msgBuf,"Error while creating object"); return 0; }
-  lock(objMutex);
-  objectCount++;
-  unlock(objMutex);
+  if(*pgdx == NULL)
+  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreateD */
 
@@ -2083,17 +2094,18 @@ int gdxCreateL (gdxHandle_t *pgdx, const char *libName,
 {
   int gdxIsReady;
 
+  lock(objMutex);
+  objectCount++;
+  unlock(objMutex);
   gdxIsReady = gdxGetReadyL (libName, msgBuf, msgBufSize);
   if (! gdxIsReady) {
+    uncountObject();
     return 0;
   }
   assert(XCreate);
   XCreate(pgdx);
-  if(pgdx == NULL)
-  { strcpy(msgBuf,"Error while creating object"); return 0; }
-  lock(objMutex);
-  objectCount++;
-  unlock(objMutex);
+  if(*pgdx == NULL)
+  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreateL */
 
@@ -2124,7 +2136,6 @@ int gdxLibraryUnload(void)
     unlock(objMutex);
     return 0;
   }
-  unlock(objMutex);
   lock(libMutex);
   if (isLoaded)
   {
@@ -2132,6 +2143,7 @@ int gdxLibraryUnload(void)
     (void) unLoadLib(h);
   }
   unlock(libMutex);
+  unlock(objMutex);
   return 1;
 } /* gdxLibraryUnload */
 
-- 
2.43.0


From 69af41f4e9232c8db724035f3e6b2e3ae7bc37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 35/64] fix: freeing an empty handle does not lower the object
 count

The count fell below the number of living objects, so the library could be
unloaded under them.
---
 generated/gdxcc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index 7cf8e29..7540496 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -2112,6 +2112,8 @@ int gdxCreateL (gdxHandle_t *pgdx, const char *libName,
 int gdxFree   (gdxHandle_t *pgdx)
 {
   assert(XFree);
+  if (NULL == *pgdx)
+    return 1;
   XFree(pgdx); pgdx = NULL;
   lock(objMutex);
   objectCount--;
-- 
2.43.0


From 8636a5187e127e62225d9bae4a780ed134e77132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 36/64] fix: a library whose entry points are missing is
 released and reported

---
 generated/gdxcc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index 7540496..eb8d58a 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -1798,8 +1798,10 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   LOADIT(XCheck, "C__XCheck");
   LOADIT(XAPIVersion, "C__XAPIVersion");
 
-  if (!XAPIVersion(11,errBuf,&cl))
+  if (!XAPIVersion(11,errBuf,&cl)) {
+    (void) unLoadLib(h);
     return 1;
+  }
 
   LOADIT_ERR_OK(gdxSetLoadPath, "C__gdxSetLoadPath");
   LOADIT_ERR_OK(gdxGetLoadPath, "C__gdxGetLoadPath");
@@ -1914,7 +1916,7 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   if (errBuf && errBufSize>0) {
     int elen;
     char* ebuf;
-    elen = errBufSize;  ebuf = errBuf;
+    elen = errBufSize-1;  ebuf = errBuf;
     rc = sprintf (ebuf, "%.*s", elen, "Could not load symbol '");
     elen -= rc;  ebuf+= rc;
     rc = sprintf (ebuf, "%.*s", elen, symName);
@@ -1925,10 +1927,10 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
     /* elen -= rc;  ebuf+= rc; */
     errBuf[errBufSize-1] = '\0';
     /* printf ("%s\n", errBuf); */
-    return 2;
   }
+  (void) unLoadLib(h);
 
- return 0;
+ return 2;
 
 } /* XLibraryLoad */
 
-- 
2.43.0


From ab74ca6e4806bb9c461bd9aa7b520f93e940b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 37/64] fix: the version query does not enter a library that is
 being unloaded

---
 generated/gdxcc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index eb8d58a..cd72eee 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -2158,17 +2158,21 @@ int  gdxCorrectLibraryVersion(char *msgBuf, int msgBufLen)
 
   if (msgBuf && msgBufLen) msgBuf[0] = '\0';
 
+  lock(libMutex);
   if (! isLoaded) {
+    unlock(libMutex);
     strncpy(msgBuf, "Library needs to be initialized first", msgBufLen);
     return 0;
   }
 
   if (NULL == XAPIVersion) {
+    unlock(libMutex);
     strncpy(msgBuf, "Function XAPIVersion not found", msgBufLen);
     return 0;
   }
 
   XAPIVersion(GDXAPIVERSION,localBuf,&cl);
+  unlock(libMutex);
   strncpy(msgBuf, localBuf, msgBufLen);
 
   if (1 == cl)
-- 
2.43.0


From 14cf995f979af03434501fd54ac5bb4963df98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:15 +0000
Subject: [PATCH 38/64] fix: long directory and library names do not overrun
 the loader's buffers

---
 generated/gdxcc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index cd72eee..182ecc0 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -1958,8 +1958,8 @@ libloader(const char *dllPath, const char *dllName, char *msgBuf, int msgBufSize
 
   if (! isLoaded) {
     if (NULL != dllPath && '\0' != *dllPath) {
-      strncpy(dllNameBuf, dllPath, sizeof(dllNameBuf)-1);
-      dllNameBuf[sizeof(dllNameBuf)-1] = '\0';
+      strncpy(dllNameBuf, dllPath, sizeof(dllNameBuf)-2);
+      dllNameBuf[sizeof(dllNameBuf)-2] = '\0';
 #if defined(_WIN32)
       if ('\\' != dllNameBuf[strlen(dllNameBuf)])
         strcat(dllNameBuf,"\\");
@@ -2017,6 +2017,13 @@ int gdxGetReadyL (const char *libName, char *msgBuf, int msgBufSize)
 {
   char dirName[1024],fName[1024];
   int rc;
+  if (strlen(libName) >= sizeof(dirName)) {
+    if (NULL != msgBuf && msgBufSize > 0) {
+      strncpy(msgBuf, "Name of shared library too long", msgBufSize-1);
+      msgBuf[msgBufSize-1] = '\0';
+    }
+    return 0;
+  }
   extractFileDirFileName (libName, dirName, fName);
   lock(libMutex);
   rc = libloader(dirName, fName, msgBuf, msgBufSize);
-- 
2.43.0


From 87d0641e2312d99355ec179aca5ac264e4e042e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:21 +0000
Subject: [PATCH 39/64] fix: gdxmerge ends with an error when the output file
 cannot be written

---
 src/tools/gdxmerge/gdxmerge.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1daf28b..f7ee540 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -798,7 +798,13 @@ int main(const int argc, const char *argv[]) {
 
   SyList->WriteNameList();
 
-  gdxClose(PGXMerge);
+  ErrNr = gdxClose(PGXMerge);
+  if (ErrNr != 0) {
+    library::printErrorMessage("*** Error  : Cannot write to output file, Error Nr = " + std::to_string(ErrNr));
+    gdxErrorStr(PGXMerge, ErrNr, Msg.data());
+    library::printErrorMessage("*** Message: " + Msg);
+    return 1;
+  }
   gdxFree(&PGXMerge);
 
   std::cout << '\n';
-- 
2.43.0


From b077f46bdea37f23817c68b60c9a66e0409ecad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:22 +0000
Subject: [PATCH 40/64] fix: gdxmerge reports symbols it could not read
 completely

---
 src/tools/gdxmerge/gdxmerge.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index f7ee540..db4b1c4 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -282,7 +282,12 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
       }
       SyObj->SyData->AddRecord(IndxI, Vals);
     }
+    ErrNr = gdxGetLastError(PGX);
     gdxDataReadDone(PGX);
+    if (ErrNr != 0) {
+      gdxErrorStr(PGX, ErrNr, ErrMsg.data());
+      CheckError(false, "Error reading symbol, message: " + ErrMsg);
+    }
   }
 
   KeepNewAcronyms(PGX);
-- 
2.43.0


From 1f155563c405bbfbe981e35b1de9be7d12fb9b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 41/64] fix: gdxmerge: the options id and exclude find symbols
 whatever the case

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index db4b1c4..20ec6ad 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -23,6 +23,7 @@
  * SOFTWARE.
  */
 
+#include <algorithm>
 #include <cstring>
 #include <iomanip>
 #include <iostream>
@@ -124,7 +125,7 @@ int SymbolList::AddUEL(const library::ShortString &S) {
 
 int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyType AType, const int ASubTyp) {
   auto is_in_list = [](const std::vector<std::string> &list, const std::string &value) {
-    return std::find(list.begin(), list.end(), value) != list.end();
+    return std::any_of(list.begin(), list.end(), [&value](const std::string &item) { return gdlib::strutilx::StrUEqual(item, value); });
   };
 
   if ((!IncludeList.empty() && !is_in_list(IncludeList, AName)) ||
-- 
2.43.0


From a0c0757b7772b44a341e5d89e99e6275ec4c8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 42/64] fix: gdxmerge keeps the data of equally named files
 apart

---
 src/tools/gdxmerge/gdxmerge.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 20ec6ad..e8d9efd 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -392,6 +392,36 @@ bool SymbolList::FindGDXFiles(const std::string &Path) {
         ShortName = NewName;
       }
 
+      // The same file, found by another pattern
+      bool Listed{};
+      for (int N{}; N < fileList->size() && !Listed; N++) {
+        Listed = fileList->FileName(N) == BPath + Rec.Name;
+      }
+      if (Listed) {
+        std::cout << "File " << BPath + Rec.Name << " is specified more than once, used it once\n";
+        continue;
+      }
+
+      // Two files with the same name in different directories need different keys
+      auto IdInUse = [this](const std::string &Id) -> bool {
+        for (int N{}; N < fileList->size(); N++) {
+          if (gdlib::strutilx::StrUEqual(utils::trimRight(fileList->FileId(N)), utils::trimRight(Id))) {
+            return true;
+          }
+        }
+        return false;
+      };
+      if (IdInUse(ShortName)) {
+        int K{fileList->size() + 1};
+        do {
+          NewName = "File_" + std::to_string(K++);
+        } while (IdInUse(NewName));
+        std::cout << "*** Filename is already used as a UEL\n"
+                  << "    Existing name: " << ShortName << '\n'
+                  << "    Replaced with: " << NewName << '\n';
+        ShortName = NewName;
+      }
+
       DT = rtl::sysutils_p3::FileDateToDateTime(Rec.Time);
 
       std::uint16_t Year, Month, Day, Hour, Min, Sec, MSec;
-- 
2.43.0


From c59232e3041482ab52e24af29d35e2d68fa046a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:38 +0000
Subject: [PATCH 43/64] fix: gdxmerge with big symbols: all keys, matching
 symbols only, texts and acronyms as without

---
 src/tools/gdxmerge/gdxmerge.cpp | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index e8d9efd..c7c67ce 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -321,6 +321,25 @@ bool SymbolList::CollectBigOne(const int SyNr) {
             << gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr)
             << "     ";
 
+  // The first pass did not compare the symbols of the files
+  auto SameKind = [&](const gdxHandle_t &PGX, const int Nr) -> bool {
+    library::ShortString SyName, SyText;
+    int Dim, SyITyp, SySubTyp, Count;
+    gdxSymbolInfo(PGX, Nr, SyName.data(), &Dim, &SyITyp);
+    gdxSymbolInfoX(PGX, Nr, &Count, &SySubTyp, SyText.data());
+    const gdxSyType SyTyp{SyITyp == GMS_DT_ALIAS ? dt_set : gdxSyType(SyITyp)};
+    if (Dim + 1 != SyObj->SyDim || SyTyp != SyObj->SyTyp ||
+        ((SyTyp == dt_var || SyTyp == dt_equ) && SySubTyp != SyObj->SySubTyp)) {
+      FErrorCount++;
+      library::printErrorMessage("\n**** Error in file " + FileName + "\n     Dimensions or types do not match: " + SyName);
+      return false;
+    }
+    if (SyObj->SyExplTxt.empty()) {
+      SyObj->SyExplTxt = SyText;
+    }
+    return true;
+  };
+
   gdxUELRegisterStrStart(PGXMerge);
 
   for (FNr = 0; FNr < fileList->size(); FNr++) {
@@ -331,17 +350,19 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     if (ErrNr != 0) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
       library::printErrorMessage("Error reading file, message: " + ErrMsg);
-      return false;
+      gdxFree(&PGX);
+      continue;
     }
 
-    if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-      // We did this already in AddPGXFile:
-      // ShareAcronyms(PGX);
+    ShareAcronyms(PGX);
+    if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0 && SameKind(PGX, N)) {
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D <= SyObj->SyDim; D++) {
-          IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+        if (SyObj->SyDim > 1) {
+          for (D = FDim - 1; D < SyObj->SyDim - 1; D++) {
+            IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+          }
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
           gdxGetElemText(PGX, utils::round<int>(Vals[GMS_VAL_LEVEL]), Txt.data(), &INode);
@@ -349,7 +370,13 @@ bool SymbolList::CollectBigOne(const int SyNr) {
         }
         SyObj->SyData->AddRecord(IndxI, Vals);
       }
+      ErrNr = gdxGetLastError(PGX);
       gdxDataReadDone(PGX);
+      if (ErrNr != 0) {
+        gdxErrorStr(PGX, ErrNr, ErrMsg.data());
+        FErrorCount++;
+        library::printErrorMessage("\n**** Error in file " + FileName + "\n     Error reading symbol, message: " + ErrMsg);
+      }
     }
 
     KeepNewAcronyms(PGX);
-- 
2.43.0


From bb2f57c8cf58a5a56c21fe8823474dee213fc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 44/64] fix: gdxdiff names the elements that differ and not
 their neighbours

---
 src/tools/gdxdiff/gdxdiff.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e57c664..9cb9552 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -145,7 +145,8 @@ void OpenGDX(const std::string &fn, gdxHandle_t &PGX) {
     int NN;
     library::ShortString UEL;
     gdxUMUelGet(PGX, N, UEL.data(), &NN);
-    NN = UELTable->Add(UEL.data(), UEL.length());
+    // The table counts from zero, user element numbers start at one
+    NN = UELTable->Add(UEL.data(), UEL.length()) + 1;
     gdxUELRegisterMap(PGX, NN, UEL.data());
   }
   gdxUELRegisterDone(PGX);
@@ -216,8 +217,8 @@ void CompareSy(const int Sy1, const int Sy2) {
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
       // TODO: Improve this check (especially the else case)
-      if (Keys[D] < UELTable->Count()) {
-        std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
+      if (Keys[D] >= 1 && Keys[D] <= UELTable->Count()) {
+        std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D] - 1));
       } else {
         std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
       }
@@ -257,7 +258,11 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
+      if (Keys[D] >= 1 && Keys[D] <= UELTable->Count()) {
+        std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D] - 1));
+      } else {
+        std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
+      }
     }
     std::strcpy(StrKeysPtrs[Dim], Act.data());
     gdxAddSetText(PGXDIF, S.data(), &iNode);
@@ -287,7 +292,7 @@ void CompareSy(const int Sy1, const int Sy2) {
   auto WriteKeys = [&](const gdxUelIndex_t &Keys) -> void {
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      std::cout << ' ' << UELTable->GetString(Keys[D]);
+      std::cout << ' ' << UELTable->GetString(Keys[D] - 1);
       if (D < Dim) {
         std::cout << " .";
       }
-- 
2.43.0


From aa9cb492564d71f8d8a615af90774bea23305dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 45/64] fix: gdxdiff knows the default records of equations

---
 src/tools/gdxdiff/gdxdiff.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 9cb9552..9e160cc 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -578,9 +578,12 @@ void CompareSy(const int Sy1, const int Sy2) {
   // Create default record for this type
   if (ST == dt_var || ST == dt_equ) {
     if (ST == dt_var) {
-      std::copy(std::begin(gmsDefRecVar[VarEquType]), std::end(gmsDefRecVar[VarEquType]), std::begin(DefValues));
+      const int subType{VarEquType >= 0 && VarEquType < GMS_VARTYPE_MAX ? VarEquType : GMS_VARTYPE_UNKNOWN};
+      std::copy(std::begin(gmsDefRecVar[subType]), std::end(gmsDefRecVar[subType]), std::begin(DefValues));
     } else {
-      std::copy(std::begin(gmsDefRecEqu[VarEquType]), std::end(gmsDefRecEqu[VarEquType]), std::begin(DefValues));
+      const int equType{VarEquType - GMS_EQU_USERINFO_BASE};
+      const int subType{equType >= 0 && equType < GMS_EQUTYPE_MAX ? equType : 0};
+      std::copy(std::begin(gmsDefRecEqu[subType]), std::end(gmsDefRecEqu[subType]), std::begin(DefValues));
     }
   }
 
-- 
2.43.0


From abe21a618f0b67b905533547b5f19a73417e466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 46/64] fix: gdxdiff DiffOnly: dimension limit of the output
 symbol

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 9e160cc..89dbeb1 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -587,7 +587,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     }
   }
 
-  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
+  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && (ST == dt_var || ST == dt_equ) && Dim + 2 > GMS_MAX_INDEX_DIM)) {
     Status = StatusCode::sc_dim10;
   }
 
-- 
2.43.0


From 19ee74e971425c00ac89e9233f1443f58cb68063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 47/64] fix: gdxdiff finds a free name for the symbol
 FilesCompared

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 89dbeb1..971a8b2 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -1109,7 +1109,7 @@ int main(const int argc, const char *argv[]) {
     do {
       ID = "FilesCompared";
       if (N > 0) {
-        ID += std::to_string('_') + std::to_string(N);
+        ID += '_' + std::to_string(N);
       }
       if (gdxFindSymbol(PGXDIF, ID.data(), &NN) == 0) {
         break;
-- 
2.43.0


From 4ac89850e26107a3089815153c39d998ab152a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 48/64] fix: gdxdiff ends with an error when a file cannot be
 read or written completely

---
 src/tools/gdxdiff/gdxdiff.cpp | 19 ++++++++++++++++++-
 src/tools/gdxdiff/gdxdiff.hpp |  2 ++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 971a8b2..e48894b 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -121,6 +121,15 @@ void CheckGDXError(const gdxHandle_t &PGX) {
   }
 }
 
+void CheckReadError(const gdxHandle_t &PGX) {
+  int ErrNr{gdxGetLastError(PGX)};
+  if (ErrNr != 0) {
+    library::ShortString S;
+    gdxErrorStr(PGX, ErrNr, S.data());
+    FatalError2("Problem reading GDX file", S, static_cast<int>(ErrorCode::ERR_READGDX));
+  }
+}
+
 void OpenGDX(const std::string &fn, gdxHandle_t &PGX) {
   if (!rtl::sysutils_p3::FileExists(fn)) {
     FatalError("Input file not found " + fn, static_cast<int>(ErrorCode::ERR_NOFILE));
@@ -687,6 +696,10 @@ void CompareSy(const int Sy1, const int Sy2) {
 
   SymbClose();
 
+  // Neither file is compared completely when reading it ended early
+  CheckReadError(PGX1);
+  CheckReadError(PGX2);
+
 label999:
   if (Status != StatusCode::sc_same &&
       Status != StatusCode::sc_dim10) {
@@ -1131,7 +1144,11 @@ int main(const int argc, const char *argv[]) {
 
   // Note that input files are not closed at this point; so if we wrote
   // to an input file, the delete will fail and we keep the original input file alive
-  gdxClose(PGXDIF);
+  ErrNr = gdxClose(PGXDIF);
+  if (ErrNr != 0) {
+    gdxErrorStr(PGXDIF, ErrNr, S.data());
+    FatalError2("Cannot write file: " + DiffTmpName, S, static_cast<int>(ErrorCode::ERR_WRITEGDX));
+  }
   gdxFree(&PGXDIF);
 
   if (!rtl::sysutils_p3::FileExists(DiffFileName)) {
diff --git a/src/tools/gdxdiff/gdxdiff.hpp b/src/tools/gdxdiff/gdxdiff.hpp
index f26edbe..4f5acf0 100644
--- a/src/tools/gdxdiff/gdxdiff.hpp
+++ b/src/tools/gdxdiff/gdxdiff.hpp
@@ -100,6 +100,8 @@ void FatalError2(const std::string &Msg1, const std::string &Msg2, int ErrNr);
 
 void CheckGDXError(const gdxHandle_t &PGX);
 
+void CheckReadError(const gdxHandle_t &PGX);
+
 void OpenGDX(const std::string &fn, gdxHandle_t &PGX);
 
 void RegisterDiffUELs();
-- 
2.43.0


From df72d453370f6542a6e00ce55c4a3e781a55a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 49/64] fix: gdxdump lists all acronyms

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 827d7a6..d7012f3 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -989,7 +989,7 @@ void WriteAcronyms() {
   }
 
   fo << '\n';
-  for (int N{}; N < Cnt; N++) {
+  for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
     fo << "Acronym " << sName.data();
     if (!sText.empty()) {
-- 
2.43.0


From 45f6ccccb18d731200dd1ca78dd5c958c342bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 50/64] fix: gdxdump SetText looks at all sets

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index d7012f3..90172ea 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -880,7 +880,7 @@ void WriteSetText() {
   // Now find the max textIdx stored for any set element
   mxTextIdx = 0;
   gdxSystemInfo(PGX, &nSyms, &idummy);
-  for (int iSym{}; iSym < nSyms; iSym++) {
+  for (int iSym{1}; iSym <= nSyms; iSym++) {
     gdxSymbolInfo(PGX, iSym, s.data(), &symDim, &symTyp);
     if (static_cast<gdxSyType>(symTyp) != dt_set) {
       continue;
-- 
2.43.0


From 9f18f160ee749ffade835e3688d0ef40882da6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 51/64] fix: gdxdump: every CSV column has a name of its own

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 90172ea..46fad81 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -582,7 +582,7 @@ void WriteSymbolCSV(const int SyNr) {
       }
       while (true) {
         Done = true;
-        for (int DD{}; DD < D - 1; DD++) {
+        for (int DD{}; DD < D; DD++) {
           if (s == DomSPtrs[DD]) {
             Done = false;
             break;
-- 
2.43.0


From 4ef911263358c921bff3839cd236959ce26dd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 52/64] fix: gdxdump knows the types of equations

---
 src/tools/gdxdump/gdxdump.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 46fad81..823944b 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -421,6 +421,9 @@ void WriteSymbol(const int SyNr) {
     break;
 
   case dt_equ:
+    if (AUser >= GMS_EQU_USERINFO_BASE) {
+      AUser -= GMS_EQU_USERINFO_BASE;
+    }
     if (AUser < GMS_EQUTYPE_E || AUser > GMS_EQUTYPE_B) {
       AUser = GMS_EQUTYPE_E;
     }
-- 
2.43.0


From 8e53d4048cb2a7427296220776263ab94d1c63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 53/64] fix: gdxdump ends with an error when it cannot read the
 file or write the output

---
 src/tools/gdxdump/gdxdump.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 823944b..e08855b 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -1002,10 +1002,23 @@ void WriteAcronyms() {
   }
 }
 
+// Complete the output; afterwards messages go to the console again
+bool CloseOutput(std::streambuf *const consoleBuffer) {
+  fo.flush();
+  bool result{fo.good()};
+  if (OutputFile.is_open()) {
+    OutputFile.close();
+    result = result && OutputFile.good();
+    fo.rdbuf(consoleBuffer);
+  }
+  return result;
+}
+
 int main(const int argc, const char *argv[]) {
   library::ShortString s, Symb;
   // std::string DLLStr;
   std::string InputFile, UELSetName, OutputName;
+  std::streambuf *const consoleBuffer{fo.rdbuf()};
   int ErrNr, ExitCode;
   bool ListAllSymbols, ListSymbolsAsSet, ListSymbolsAsSetDI, UsingIDE, VersionOnly, DomainInfo, showSetText;
 
@@ -1483,6 +1496,16 @@ int main(const int argc, const char *argv[]) {
   }
 
 AllDone:
+  if (!CloseOutput(consoleBuffer)) {
+    library::printErrorMessage("Problem writing the output");
+    ExitCode = 6;
+  }
+  ErrNr = gdxGetLastError(PGX);
+  if (ErrNr != 0) {
+    gdxErrorStr(PGX, ErrNr, s.data());
+    library::printErrorMessage("Problem reading GDX file: " + s);
+    ExitCode = 5;
+  }
   gdxClose(PGX);
   gdxFree(&PGX);
 
@@ -1491,10 +1514,6 @@ AllDone:
   }
 
 End:
-  if (OutputFile.is_open()) {
-    OutputFile.close();
-  }
-
   return ExitCode;
 }
 
-- 
2.43.0


From b5bee40642a32fb7acbe8fe8c915a79cf58e1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 54/64] fix: gdxdump CDim: no table from a symbol that was not
 read completely

---
 src/tools/gdxdump/gdxdump.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index e08855b..8a5aebf 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -708,6 +708,9 @@ void WriteSymbolCSV(const int SyNr) {
       }
     }
     gdxDataReadDone(PGX);
+    if (gdxErrorCount(PGX) != 0) {
+      return;
+    }
 
     CSVUels = std::make_unique<int[]>(ColCnt);
     // TODO: Check this, could be redundant
-- 
2.43.0


From b6ae73428f6242640f6a009f62c322b84288fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 55/64] fix: gdxdump DecimalSep applies to numbers with an
 exponent, too

---
 src/gdlib/strutilx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9807e62..74bd67b 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -302,6 +302,7 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
    else
    {
       assert(k >= 0);
+      s[j] = DecimalSep;
       if( s[k] == '+' )
          s[k] = ' ';
       for( int i = k + 1; i < slen; i++ )
-- 
2.43.0


From 59d5fb75c5562d33375b20377e600f592a6a0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 56/64] fix: messages of the loader stay within the caller's
 buffer

---
 generated/gdxcc.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/generated/gdxcc.c b/generated/gdxcc.c
index 182ecc0..3c03271 100644
--- a/generated/gdxcc.c
+++ b/generated/gdxcc.c
@@ -1756,19 +1756,30 @@ loadSym (soHandle_t h, const char *sym, char **errMsg)
 # endif /* ! defined(GMS_DLL_SUFFIX) */
 #endif
 
+/** put a message into the caller's buffer as far as it fits */
+static void
+setMessage (char *msgBuf, int msgBufSize, const char *msg)
+{
+  if (NULL == msgBuf || msgBufSize <= 0)
+    return;
+  strncpy(msgBuf, msg, msgBufSize-1);
+  msgBuf[msgBufSize-1] = '\0';
+}
+
 /** XLibraryLoad: return 0 on success, ~0 on failure */
 static int
 XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
 {
   char *errMsg;
   const char *symName;
+  char libMsg[256];
   int rc, cl;
 
   if (isLoaded)
     return 0;
   h = loadLib (dllName, &errMsg);
   if (NULL == h) {
-    if (NULL != errBuf) {
+    if (NULL != errBuf && errBufSize > 0) {
       int elen;
       char* ebuf;
       elen = errBufSize-1;  ebuf = errBuf;
@@ -1786,7 +1797,7 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   }
   else {
      /* printf ("Loaded shared library %s successfully\n", dllName); */
-    if (errBuf && errBufSize)
+    if (errBuf && errBufSize > 0)
       errBuf[0] = '\0';
   }
 
@@ -1798,7 +1809,9 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   LOADIT(XCheck, "C__XCheck");
   LOADIT(XAPIVersion, "C__XAPIVersion");
 
-  if (!XAPIVersion(11,errBuf,&cl)) {
+  rc = XAPIVersion(11,libMsg,&cl);
+  setMessage(errBuf, errBufSize, libMsg);
+  if (!rc) {
     (void) unLoadLib(h);
     return 1;
   }
@@ -1807,8 +1820,10 @@ XLibraryLoad (const char *dllName, char *errBuf, int errBufSize)
   LOADIT_ERR_OK(gdxGetLoadPath, "C__gdxGetLoadPath");
 
 #define CheckAndLoad(f,nargs,prefix) \
-  if (!XCheck(#f,nargs,s,errBuf)) \
+  if (!XCheck(#f,nargs,s,libMsg)) { \
+    setMessage(errBuf, errBufSize, libMsg); \
     f = &d_##f; \
+  } \
   else { \
     LOADIT(f,prefix #f); \
   }
@@ -1954,7 +1969,7 @@ libloader(const char *dllPath, const char *dllName, char *msgBuf, int msgBufSize
 # error "GMS_DLL_SUFFIX expected but not defined"
 #endif
 
-  if (NULL != msgBuf) msgBuf[0] = '\0';
+  if (NULL != msgBuf && msgBufSize > 0) msgBuf[0] = '\0';
 
   if (! isLoaded) {
     if (NULL != dllPath && '\0' != *dllPath) {
@@ -2018,10 +2033,7 @@ int gdxGetReadyL (const char *libName, char *msgBuf, int msgBufSize)
   char dirName[1024],fName[1024];
   int rc;
   if (strlen(libName) >= sizeof(dirName)) {
-    if (NULL != msgBuf && msgBufSize > 0) {
-      strncpy(msgBuf, "Name of shared library too long", msgBufSize-1);
-      msgBuf[msgBufSize-1] = '\0';
-    }
+    setMessage(msgBuf, msgBufSize, "Name of shared library too long");
     return 0;
   }
   extractFileDirFileName (libName, dirName, fName);
@@ -2054,7 +2066,7 @@ int gdxCreate (gdxHandle_t *pgdx, char *msgBuf, int msgBufSize)
   assert(XCreate);
   XCreate(pgdx);
   if(*pgdx == NULL)
-  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
+  { uncountObject(); setMessage(msgBuf, msgBufSize, "Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreate */
 
@@ -2074,7 +2086,7 @@ int gdxCreateD (gdxHandle_t *pgdx, const char *dirName,
   assert(XCreate);
   XCreate(pgdx);
   if(*pgdx == NULL)
-  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
+  { uncountObject(); setMessage(msgBuf, msgBufSize, "Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreateD */
 
@@ -2093,7 +2105,7 @@ int gdxCreateDD (gdxHandle_t *pgdx, const char *dirName,
   assert(XCreateD);
   XCreateD(pgdx, dirName);
   if(*pgdx == NULL)
-  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
+  { uncountObject(); setMessage(msgBuf, msgBufSize, "Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreateD */
 
@@ -2114,7 +2126,7 @@ int gdxCreateL (gdxHandle_t *pgdx, const char *libName,
   assert(XCreate);
   XCreate(pgdx);
   if(*pgdx == NULL)
-  { uncountObject(); strcpy(msgBuf,"Error while creating object"); return 0; }
+  { uncountObject(); setMessage(msgBuf, msgBufSize, "Error while creating object"); return 0; }
   return 1;                     /* return true on successful library load */
 } /* gdxCreateL */
 
@@ -2163,24 +2175,24 @@ int  gdxCorrectLibraryVersion(char *msgBuf, int msgBufLen)
   int cl;
   char localBuf[256];
 
-  if (msgBuf && msgBufLen) msgBuf[0] = '\0';
+  setMessage(msgBuf, msgBufLen, "");
 
   lock(libMutex);
   if (! isLoaded) {
     unlock(libMutex);
-    strncpy(msgBuf, "Library needs to be initialized first", msgBufLen);
+    setMessage(msgBuf, msgBufLen, "Library needs to be initialized first");
     return 0;
   }
 
   if (NULL == XAPIVersion) {
     unlock(libMutex);
-    strncpy(msgBuf, "Function XAPIVersion not found", msgBufLen);
+    setMessage(msgBuf, msgBufLen, "Function XAPIVersion not found");
     return 0;
   }
 
   XAPIVersion(GDXAPIVERSION,localBuf,&cl);
   unlock(libMutex);
-  strncpy(msgBuf, localBuf, msgBufLen);
+  setMessage(msgBuf, msgBufLen, localBuf);
 
   if (1 == cl)
     return 1;
-- 
2.43.0


From f3784d6030a29bafd0342dfa14c83346a866e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 57/64] fix: the tools show why the library could not be loaded

---
 src/tools/gdxdiff/gdxdiff.cpp   | 4 ++--
 src/tools/gdxdump/gdxdump.cpp   | 4 ++--
 src/tools/gdxmerge/gdxmerge.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e48894b..e3fb055 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -136,7 +136,7 @@ void OpenGDX(const std::string &fn, gdxHandle_t &PGX) {
   }
 
   library::ShortString S;
-  if (gdxCreate(&PGX, S.data(), S.length()) == 0) {
+  if (gdxCreate(&PGX, S.data(), GMS_SSSIZE) == 0) {
     FatalError("Cannot load GDX library " + S, static_cast<int>(ErrorCode::ERR_LOADDLL));
   }
 
@@ -1016,7 +1016,7 @@ int main(const int argc, const char *argv[]) {
   }
 
   library::ShortString S2;
-  if (gdxCreate(&PGXDIF, S2.data(), S2.length()) == 0) {
+  if (gdxCreate(&PGXDIF, S2.data(), GMS_SSSIZE) == 0) {
     FatalError("Unable to load GDX library: " + S2, static_cast<int>(ErrorCode::ERR_LOADDLL));
   }
 
diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 8a5aebf..2f179ac 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -1371,13 +1371,13 @@ int main(const int argc, const char *argv[]) {
   {
     library::ShortString error_message;
 
-    if (gdxGetReady(error_message.data(), error_message.length()) == 0) {
+    if (gdxGetReady(error_message.data(), GMS_SSSIZE) == 0) {
       library::printErrorMessage("Error loading GDX library: " + error_message);
       ExitCode = 3;
       goto End;
     }
 
-    if (gdxCreate(&PGX, error_message.data(), error_message.length()) == 0) {
+    if (gdxCreate(&PGX, error_message.data(), GMS_SSSIZE) == 0) {
       library::printErrorMessage("Error using GDX library: " + error_message);
       ExitCode = 3;
       goto End;
diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index c7c67ce..9bebf84 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -96,7 +96,7 @@ SymbolList::SymbolList()
   StrPool->Add(empty_string.data(), empty_string.length());
   fileList = std::make_unique<FileList<GDXFileEntry>>();
   library::ShortString Msg;
-  gdxCreate(&PGXMerge, Msg.data(), Msg.length());
+  gdxCreate(&PGXMerge, Msg.data(), GMS_SSSIZE);
 }
 
 SymbolList::~SymbolList() {
@@ -785,7 +785,7 @@ int main(const int argc, const char *argv[]) {
     return {};
   }
 
-  if (gdxGetReady(Msg.data(), Msg.length()) == 0) {
+  if (gdxGetReady(Msg.data(), GMS_SSSIZE) == 0) {
     library::printErrorMessage("*** Error: Unable to load gdx library, message:\n" + Msg);
     return 1;
   }
-- 
2.43.0


From d6605924f9039c474e89ade745c2fa36e0159067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 58/64] fix: long strings do not overrun the short strings of
 the tools

---
 src/tools/library/short_string.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/tools/library/short_string.cpp b/src/tools/library/short_string.cpp
index 57aade5..646106c 100644
--- a/src/tools/library/short_string.cpp
+++ b/src/tools/library/short_string.cpp
@@ -1,4 +1,5 @@
 // #include <cassert>
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <ostream>
@@ -15,11 +16,8 @@ ShortString::ShortString() {
 }
 
 ShortString::ShortString(const char *s) {
-  const std::size_t s_length{std::strlen(s)};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(s_length < GMS_SSSIZE);
-#endif
+  // Only the beginning of a longer string fits
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1)};
 
   std::memcpy(buffer.data(), s, s_length);
   buffer[s_length] = '\0';
@@ -96,9 +94,9 @@ void ShortString::clear() {
 void ShortString::append(const char c) {
   const std::uint8_t length{this->length()};
 
-#if defined(ENABLE_ASSERTIONS)
-  assert(length + 1 < GMS_SSSIZE);
-#endif
+  if (length + 1 >= GMS_SSSIZE) {
+    return;
+  }
 
   buffer[length] = c;
   buffer[length + 1] = '\0';
@@ -106,11 +104,7 @@ void ShortString::append(const char c) {
 
 void ShortString::append(const char *s) {
   const std::uint8_t length{this->length()};
-  const std::size_t s_length{std::strlen(s)};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(length + s_length < GMS_SSSIZE);
-#endif
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1 - length)};
 
   std::memcpy(buffer.data() + length, s, s_length);
   buffer[length + s_length] = '\0';
@@ -147,11 +141,7 @@ void ShortString::to_upper_case() {
 }
 
 ShortString &ShortString::operator=(const std::string &s) {
-  const std::size_t s_length{s.length()};
-
-#if defined(ENABLE_ASSERTIONS)
-  assert(s_length < GMS_SSSIZE);
-#endif
+  const std::size_t s_length{std::min<std::size_t>(s.length(), GMS_SSSIZE - 1)};
 
   std::memcpy(buffer.data(), s.data(), s_length);
   buffer[s_length] = '\0';
-- 
2.43.0


From 64ac53eb26f6b6ff50637ab7d205b5c1928bdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:58 +0000
Subject: [PATCH 59/64] fix: gdxdump CDim with elements that have no string
 representation

---
 src/tools/gdxdump/gdxdump.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 2f179ac..2630248 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -32,6 +32,7 @@
 #include <map>
 #include <memory>
 #include <string_view>
+#include <vector>
 
 #include "gdlib/dblutil.hpp"
 #include "gdlib/strutilx.hpp"
@@ -604,7 +605,7 @@ void WriteSymbolCSV(const int SyNr) {
   library::ShortString SyName, S;
   int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, HighIndex, Indx;
   gdxSyType ATyp;
-  std::unique_ptr<bool[]> CSVCols;
+  std::vector<bool> CSVCols;
   std::unique_ptr<int[]> CSVUels;
   gdxUelIndex_t Keys{};
   gdxValues_t Vals{};
@@ -693,14 +694,16 @@ void WriteSymbolCSV(const int SyNr) {
       fo << '\n';
     }
   } else {
-    CSVCols = std::make_unique<bool[]>(NrUEL);
-    // TODO: Check this, could be redundant
-    std::fill_n(CSVCols.get(), NrUEL, false);
+    CSVCols.assign(NrUEL, false);
     HighIndex = 0;
     ColCnt = 0;
     gdxDataReadRawStart(PGX, SyNr, &NRec);
     while (gdxDataReadRaw(PGX, Keys, Vals, &FDim) != 0) {
       Indx = Keys[ADim - 1];
+      // Not every element has a string representation
+      if (Indx > static_cast<int>(CSVCols.size())) {
+        CSVCols.resize(Indx, false);
+      }
       if (!CSVCols[Indx - 1]) {
         CSVCols[Indx - 1] = true;
         ColCnt++;
-- 
2.43.0


From 1fb723fb56d137e68d8d665ccf6585370b953937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:58 +0000
Subject: [PATCH 60/64] fix: gdxdiff takes long lists of identifiers

---
 src/tools/gdxdiff/gdxdiff.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e3fb055..e22676b 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -940,20 +940,21 @@ int main(const int argc, const char *argv[]) {
       idList = std::make_unique<gdlib::gmsobj::TXStrings>();
       for (int N{}; N < CmdParams->GetParamCount(); N++) {
         if (CmdParams->GetParams(N).Key == static_cast<int>(paramKey)) {
-          S = utils::trim(CmdParams->GetParams(N).KeyS);
-          // std::cout << S << '\n';
-          while (!S.empty()) {
+          // A list can be longer than a short string
+          std::string list{utils::trim(CmdParams->GetParams(N).KeyS)};
+          // std::cout << list << '\n';
+          while (!list.empty()) {
             int k{gdlib::strutilx::LChSetPos(
                 ", ",
-                S.data(),
-                static_cast<int>(S.length()))};
+                list.data(),
+                static_cast<int>(list.length()))};
             if (k == -1) {
-              ID = S;
-              S.clear();
+              ID = list;
+              list.clear();
             } else {
-              ID = S.string().substr(0, k);
-              S = S.string().erase(0, k + 1);
-              S = utils::trim(S);
+              ID = list.substr(0, k);
+              list.erase(0, k + 1);
+              list = utils::trim(list);
             }
             ID = utils::trim(ID);
             if (!ID.empty()) {
-- 
2.43.0


From c610125812fbf9affb3c7fb78e6f9e0091a0f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:26 +0000
Subject: [PATCH 61/64] fix: a crash while closing an appended file cannot mix
 old and new tables

---
 src/gxfile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ee12510..3b0076d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -442,6 +442,7 @@ int TGXFileObj::gdxOpenWriteEx( const char *FileName, const char *Producer, int
    Compr &= ( FFile->GetCanCompress() ? 1 : 0 );
    fComprLev = Compr;
    CompressOut = Compr > 0;
+   AppendActive = false;
    fmode = f_not_open;
    ReadPtr = std::nullopt;
    MajContext = "OpenWrite";
@@ -561,6 +562,13 @@ int TGXFileObj::gdxClose()
    if( fmode == fw_init )
    {
       fnConv = FFile->GetFileName();
+      if( AppendActive )
+      {// the old tables get overwritten now: nobody may use them until the new index is in place
+         FFile->SetPosition( MajorIndexPosition );
+         FFile->SetCompression( false );
+         FFile->WriteInteger( 0 );
+         FFile->FlushBuffer();
+      }
       FFile->SetCompression( CompressOut );
       FFile->SetPosition( NextWritePosition );
       int64_t SymbPos = NextWritePosition;
-- 
2.43.0


From 40488e460f8351bb6cd4e958cf6b5835580f096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:22 +0000
Subject: [PATCH 62/64] fix: acronyms without a name are merged, dumped and
 compared

gdxmerge looked for a free name forever, gdxdump printed nothing for such a
value and gdxdiff took all of them for the same one.
---
 src/tools/gdxdiff/gdxdiff.cpp   | 2 +-
 src/tools/gdxdump/gdxdump.cpp   | 9 +++++++--
 src/tools/gdxmerge/gdxmerge.cpp | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e22676b..c195852 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -328,7 +328,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     if (iSV1 == sv_normal) {
       if (iSV2 == sv_normal) {
         if (gdxAcronymName(PGX1, V1, S1.data()) != 0 && gdxAcronymName(PGX2, V2, S2.data()) != 0) {
-          result = gdlib::strutilx::StrUEqual(S1.data(), S2.data());
+          result = S1.empty() && S2.empty() ? V1 == V2 : gdlib::strutilx::StrUEqual(S1.data(), S2.data());
         } else {
           AbsDiff = std::abs(V1 - V2);
           if (AbsDiff <= EpsAbsolute) {
diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 2630248..2e0cef4 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -163,10 +163,15 @@ void WriteUELTable(const std::string &name) {
   }
 }
 
+// The file need not have a name for an acronym
+std::string AcronymStr(const library::ShortString &AName, const int AIndx) {
+  return AName.empty() ? "UnknownAcronym" + std::to_string(AIndx) : std::string{AName.data()};
+}
+
 void WrVal(const double V) {
   library::ShortString acrname;
   if (gdxAcronymName(PGX, V, acrname.data()) != 0) {
-    fo << acrname.data();
+    fo << AcronymStr(acrname, gdxAcronymIndex(PGX, V));
   } else {
     int iSV;
     gdxMapValue(PGX, V, &iSV);
@@ -1000,7 +1005,7 @@ void WriteAcronyms() {
   fo << '\n';
   for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
-    fo << "Acronym " << sName.data();
+    fo << "Acronym " << AcronymStr(sName, Indx);
     if (!sText.empty()) {
       WriteQText(sText.data(), true);
     }
diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 9bebf84..2407b31 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -552,7 +552,7 @@ void SymbolList::KeepNewAcronyms(const gdxHandle_t &PGX) {
         // Should not happen
         for (int K{1}; K <= std::numeric_limits<int>::max(); K++) {
           AName = "Acronym_Auto_" + std::to_string(K);
-          if (FindAcronym(AName) < 0) {
+          if (FindAcronym(AName) <= 0) {
             break;
           }
         }
-- 
2.43.0


From 68f982e4255e323f852c69a905c40bfb1ec61939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:36 +0000
Subject: [PATCH 63/64] fix: gdxdiff names the elements of matrix files by the
 file's own table

---
 src/tools/gdxdiff/gdxdiff.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index c195852..8b2fac2 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -226,7 +226,11 @@ void CompareSy(const int Sy1, const int Sy2) {
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
       // TODO: Improve this check (especially the else case)
-      if (Keys[D] >= 1 && Keys[D] <= UELTable->Count()) {
+      if (matrixFile) {
+        // The keys of matrix files are not mapped to our own table
+        int UMap;
+        gdxUMUelGet(Act == c_ins2 || Act == c_dif2 ? PGX2 : PGX1, Keys[D], StrKeysPtrs[D], &UMap);
+      } else if (Keys[D] >= 1 && Keys[D] <= UELTable->Count()) {
         std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D] - 1));
       } else {
         std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
@@ -267,7 +271,11 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      if (Keys[D] >= 1 && Keys[D] <= UELTable->Count()) {
+      if (matrixFile) {
+        // The keys of matrix files are not mapped to our own table
+        int UMap;
+        gdxUMUelGet(Act == c_ins2 || Act == c_dif2 ? PGX2 : PGX1, Keys[D], StrKeysPtrs[D], &UMap);
+      } else if (Keys[D] >= 1 && Keys[D] <= UELTable->Count()) {
         std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D] - 1));
       } else {
         std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
-- 
2.43.0


From 58decfc7104171eaa68a9fecc46770ad45982744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:06 +0000
Subject: [PATCH 64/64] fix: parameter files are read completely, or an error
 is reported

The rest of a line after two blanks, and a line that starts with one, were
ignored; so was everything behind a read error.
---
 src/tools/library/cmdpar.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/library/cmdpar.cpp b/src/tools/library/cmdpar.cpp
index 1fcbe50..8fe7562 100644
--- a/src/tools/library/cmdpar.cpp
+++ b/src/tools/library/cmdpar.cpp
@@ -233,14 +233,11 @@ bool CmdParams::AddParameters(const int AInsP, const std::string &CmdLine, const
         while (getline(fi, line)) {
           std::vector<std::string> strings = library::splitString(line, ' ');
 
-          if (!strings.empty() && (strings.front().empty() || strings.front().front() == '*')) {
+          if (!line.empty() && line.front() == '*') {
             continue;
           }
 
           for (std::size_t k{}; k < strings.size(); k++) {
-            if (strings[k].empty()) {
-              break;
-            }
             Dest.append(" " + strings[k]);
           }
 
@@ -250,6 +247,10 @@ bool CmdParams::AddParameters(const int AInsP, const std::string &CmdLine, const
             result = false;
           }
         }
+        if (fi.bad()) {
+          library::printErrorMessage("**** could not read file: " + fname);
+          result = false;
+        }
         fi.close();
       }
     } while (true);
-- 
2.43.0

