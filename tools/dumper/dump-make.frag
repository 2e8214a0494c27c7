    fun run { root, pathconfigs } = let
	val keep_going = false
	val ctxt = SrcPath.cwd ()
	val penv = SrcPath.newEnv ()
	fun procSpec penvspec =
	      SafeIO.perform { openIt = fn () => TextIO.openIn penvspec,
				 closeIt = TextIO.closeIn,
				 work = SrcPath.processSpecFile
					    { env = penv, specfile = penvspec,
					      say = Say.say },
				 cleanup = fn _ => () }
	val _ = app procSpec pathconfigs
	val _ = SrcPath.sync ()
	fun stdpath s =
	    SrcPath.file (SrcPath.standard
			      { err = fn s => raise Fail s, env = penv }
			      { context = ctxt, spec = s })
	val initgspec = stdpath BtNames.initgspec
	val maingspec = stdpath root
	val fnpolicy =
	    FilenamePolicy.separate { bindir = "x", bootdir = "x" }
	        { arch = arch, os = os }
	fun param slave_mode =
	    { fnpolicy = fnpolicy, penv = penv, symval = SSV.symval,
	      archos = archos, keep_going = keep_going, slave_mode = slave_mode }
	val groupreg = GroupReg.new ()
	val errcons = EM.defaultConsumer ()
	val ginfo = { param = param false, groupreg = groupreg,
		      errcons = errcons, youngest = ref TStamp.ancient }
	fun mk_main_compile arg = let
	    val { pervasive = perv_n, others, src } = arg
	    fun recompInitGroup () = let
		val ovldR = Control.overloadKW
		val savedOvld = !ovldR
		val _ = ovldR := true
		val sbnode = Compile.newSbnodeTraversal ()
		fun rt n = valOf (sbnode n ginfo)
		val pervasive = rt perv_n
		fun rt2ie (n, ii: IInfo.info) = let
		    val s = #statenv ii ()
		    val (dae, mkDomain) = Statenv2DAEnv.cvt s
		    val domain = mkDomain ()
		in
		    { ie = (fn () => (NONE, n), dae, domain), domain = domain }
		end
		fun add_exports (n, exports) = let
		    val { ie, domain } = rt2ie (n, rt n)
		    fun ins_ie (sy, m) = SymbolMap.insert (m, sy, ie)
		in
		    SymbolSet.foldl ins_ie exports domain
		end
		val special_exports = let
		    fun mkie (n, rtn) = #ie (rt2ie (n, rtn))
		in
		    SymbolMap.insert (SymbolMap.empty, PervAccess.pervStrSym,
				      mkie (perv_n, pervasive))
		end
	    in
		GG.GROUP { exports = foldl add_exports special_exports others,
			   kind = GG.LIB {
			     kind = GG.DEVELOPED { wrapped = StringSet.empty,
						   subgroups = [] },
				version = NONE },
			   required = StringSet.singleton "primitive",
			   grouppath = initgspec,
			   sources = SrcPathMap.empty,
			   sublibs = [] }
		before ovldR := savedOvld
	    end
	    val init_group = recompInitGroup ()
	    val gr = GroupReg.new ()
	    val _ = GroupReg.register gr (initgspec, src)
	    val parse_arg =
		{ load_plugin = load_plugin, gr = gr, param = param false,
		  stabflag = NONE, group = maingspec, init_group = init_group,
		  paranoid = true }
	    val r = Servers.withServers (fn () => Parse.parse parse_arg)
	in
	    case r of
		NONE => false
	      | SOME (g, gp) => let
		    val { group, ... } =
			Compile.newTraversal (fn _ => fn _ => (), fn _ => (), g)
		in
		    isSome (Servers.withServers (fn () => group gp))
		end
	end
    in
	#set (SSV.symval "NO_PLUGINS") (SOME 1);
	(case BuildInitDG.build ginfo initgspec of
	    SOME x => mk_main_compile x
	  | NONE => false)
    end
end
end (* local *)
