#include "uima/pragmas.hpp"
#include "uima/api.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
using namespace uima; using namespace std;
// each call of an annotator method appends "<Id>:<method> " to calls.txt; the method named by FailIn returns 4711
struct A : public Annotator {
  string id, fail;
  TyErrorId note(const char*m){ ofstream o("calls.txt",ios::app); o<<id<<":"<<m<<" "; return fail==m?4711:UIMA_ERR_NONE; }
  TyErrorId initialize(AnnotatorContext&c){ c.extractValue("Id",id); if(c.isParameterDefined("FailIn")) c.extractValue("FailIn",fail); return note("init"); }
  TyErrorId typeSystemInit(TypeSystem const&){ return note("tsinit"); }
  TyErrorId reconfigure(){ return note("reconf"); }
  TyErrorId destroy(){ return note("destroy"); }
  TyErrorId batchProcessComplete(){ return note("bpc"); }
  TyErrorId collectionProcessComplete(){ return note("cpc"); }
  TyErrorId process(CAS&,ResultSpecification const&){ return note("process"); }
};
static string calls(){ ifstream i("calls.txt"); stringstream s; s<<i.rdbuf(); remove("calls.txt"); return s.str(); }
static string par(const char*n,const char*v){ return string("<nameValuePair><name>")+n+"</name><value><string>"+v+"</string></value></nameValuePair>"; }
static string prim(const char*id,const char*fail,const string&flow,const string&lang){
 return string("<?xml version=\"1.0\"?><analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>ann</annotatorImplementationName><analysisEngineMetaData><name>")+id+"</name><description/><version>1</version><vendor/><configurationParameters><configurationParameter><name>Id</name><type>String</type><multiValued>false</multiValued><mandatory>true</mandatory></configurationParameter><configurationParameter><name>FailIn</name><type>String</type><multiValued>false</multiValued><mandatory>false</mandatory></configurationParameter></configurationParameters><configurationParameterSettings>"+par("Id",id)+(*fail?par("FailIn",fail):"")+"</configurationParameterSettings><typeSystemDescription/><fsIndexes/>"+flow+"<capabilities><capability><inputs/><outputs><type>uima.tcas.Annotation</type></outputs><languagesSupported>"+lang+"</languagesSupported></capability></capabilities></analysisEngineMetaData></analysisEngineDescription>"; }
static string aggr(const char*flow,int n,const char*const*keys){
 string s("<?xml version=\"1.0\"?><analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>false</primitive><delegateAnalysisEngineSpecifiers>"),f;
 for(int i=0;i<n;i++){ s+=string("<delegateAnalysisEngine key=\"")+keys[i]+"\"><import location=\""+keys[i]+".xml\"/></delegateAnalysisEngine>"; f+=string("<node>")+keys[i]+"</node>"; }
 return s+"</delegateAnalysisEngineSpecifiers><analysisEngineMetaData><name>agg</name><description/><version>1</version><vendor/><flowConstraints><"+flow+">"+f+"</"+flow+"></flowConstraints><capabilities><capability><inputs/><outputs><type>uima.tcas.Annotation</type></outputs><languagesSupported><language>x-unspecified</language></languagesSupported></capability></capabilities></analysisEngineMetaData></analysisEngineDescription>"; }
static void put(const char*f,const string&s){ ofstream o(f); o<<s; }
static AnalysisEngine*mk(const char*f){ ErrorInfo e; AnalysisEngine*p=Framework::createAnalysisEngine(f,e); if(!p) cerr<<e.asString()<<endl; return p; }
#ifdef ANN
MAKE_AE(A);
#endif
