AREAS = {
 "P01": dict(driver="core", cmds=["reservoir"], mc=["RandToolsMC"], trace="RandToolsTrace"),
 "P02": dict(driver="core", cmds=["shuffle"], mc=["RandToolsMC"], trace="RandToolsTrace"),
 "P03": dict(driver="core", cmds=["activ"], mc=["ActivMC"], trace="ActivTrace"),
 "P04": dict(driver="core", cmds=["gaussian"], mc=["DistMC"], trace="DistTrace"),
 "P05": dict(driver="core", cmds=["exponential"], mc=["DistMC"], trace="DistTrace"),
 "P06": dict(driver="core", cmds=["sampling"], mc=["DistMC"], trace="DistTrace"),
 "P07": dict(driver="full", bin="knn", cmds=["search"], mc=["KnnMC", ("KnnMC", "KnnLine")], bad=[("KnnMC", "KnnEarly")], trace="KnnTrace"),
 "P08": dict(driver="full", bin="knn", cmds=["classify"], mc=[("KnnMC", "KnnLine")], trace="KnnTrace"),
 "P09": dict(driver="full", bin="dbscan", cmds=["clusters"], mc=["DbscanMC"], bad=[("DbscanMC", "DbscanBorder")], trace="DbscanTrace"),
 "P10": dict(driver="full", bin="dbscan", cmds=["predictive"], mc=[("DbscanMC", "DbscanLife")], bad=[("DbscanMC", "DbscanDrop")], trace="DbscanTrace"),
 "P11": dict(driver="full", bin="kmeans", cmds=["training"], mc=["KMeansMC", ("KMeansMC", "KMeansThree")], bad=[("KMeansMC", "KMeansEmpty")], trace="KMeansTrace"),
 "P12": dict(driver="full", bin="kmeans", cmds=["predict"], mc=["KMeansMC"], trace="KMeansTrace"),
 "P13": dict(driver="full", bin="analysis", cmds=["crossval"], mc=["CrossValMC"], bad=[("CrossValMC", "CrossValRest")], trace="CrossValTrace"),
 "P14": dict(driver="full", bin="analysis", cmds=["confusion"], mc=["ScoresMC"], trace="ScoresTrace"),
 "P15": dict(driver="full", bin="analysis", cmds=["scores"], mc=["ScoresMC"], trace="ScoresTrace"),
 "P16": dict(driver="full", bin="transforms", cmds=["minmax"], mc=[("TransformsMC", "MinMaxMC")], bad=[("TransformsMC", "MinMaxConst")], trace="TransformsTrace"),
 "P17": dict(driver="full", bin="transforms", cmds=["standard"], mc=[("TransformsMC", "StandMC")], bad=[("TransformsMC", "StandConst")], trace="TransformsTrace"),
 "P18": dict(driver="full", bin="transforms", cmds=["normalize"], mc=["NormalizeMC"], trace="TransformsTrace"),
 "P19": dict(driver="full", bin="transforms", cmds=["shuffle"], mc=["RandToolsMC"], trace="TransformsTrace"),
 "P20": dict(driver="full", bin="bayes", cmds=["naive"], mc=["NaiveBayesMC", ("NaiveBayesMC", "NaiveBayesOne")], bad=[("NaiveBayesMC", "NaiveBayesHalf")], trace="NaiveBayesTrace"),
 "P21": dict(driver="full", bin="optim", cmds=["descent"], mc=["GradDescMC", ("GradDescMC", "GradDescBatch")], bad=[("GradDescMC", "GradDescZero")], trace="GradDescTrace"),
 "P22": dict(driver="full", bin="optim", cmds=["conjugate"], mc=["FminCgMC"], bad=[("FminCgMC", "FminCgNaN")], trace="FminCgTrace"),
 "P23": dict(driver="full", bin="nnet", cmds=["forward"], mc=["NNetMC", ("NNetMC", "NNetWide")], trace="NNetTrace"),
 "P24": dict(driver="full", bin="nnet", cmds=["backprop"], mc=["NNetMC", ("NNetMC", "NNetWide")], bad=[("NNetMC", "NNetBias")], trace="NNetTrace"),
 "P25": dict(driver="full", bin="nnet", cmds=["costs"], mc=["CostRegMC", ("CostRegMC", "RegMC")], bad=[("CostRegMC", "RegPlain")], trace="CostRegTrace"),
 "P26": dict(driver="full", bin="regress", cmds=["lin"], mc=["LinRegMC", ("LinRegMC", "LinRegTwice")], bad=[("LinRegMC", "LinRegStale")], trace="RegressTrace"),
 "P27": dict(driver="full", bin="regress", cmds=["logit"], mc=["LogisticMC"], bad=[("LogisticMC", "LogisticSum")], trace="RegressTrace"),
 "P28": dict(driver="full", bin="regress", cmds=["glm"], mc=["GlmMC", ("GlmMC", "GlmBernoulli"), ("GlmMC", "GlmNormal")], bad=[("GlmMC", "GlmLag"), ("GlmMC", "GlmSaturated")], trace="RegressTrace"),
 "P29": dict(driver="full", bin="kernel", cmds=["gp"], mc=["GpMC", ("GpMC", "GpThree"), ("GpMC", "GpMin"), ("GpMC", "GpTanh")], bad=[("GpMC", "GpStale")], trace="GpTrace"),
 "P30": dict(driver="full", bin="kernel", cmds=["svm"], mc=["SvmMC", ("SvmMC", "SvmHard")], bad=[("SvmMC", "SvmForget")], trace="SvmTrace"),
 "P31": dict(driver="full", bin="kernel", cmds=["kernel"], mc=["KernelMC", ("KernelMC", "KernelAny")], bad=[("KernelMC", "KernelTanh")], trace="KernelTrace"),
 "P32": dict(driver="full", bin="gmm", cmds=["gmm"], mc=["GmmMC", ("GmmMC", "GmmDiag"), ("GmmMC", "GmmFull"), ("GmmMC", "GmmReg")], bad=[("GmmMC", "GmmLag"), ("GmmMC", "GmmShared")], trace="GmmTrace"),
 "P33": dict(driver="full", bin="pca", cmds=["pca"], mc=["PcaMC", ("PcaMC", "PcaThree")], bad=[("PcaMC", "PcaSticky"), ("PcaMC", "PcaColumns")], trace="PcaTrace"),
 "P34": dict(driver="full", bin="datasets", cmds=["sets"], mc=["DatasetsMC"], bad=[("DatasetsMC", "DatasetsAlias")], trace="DatasetsTrace"),
 "P35": dict(driver="full", bin="life", cmds=["life"], mc=["LifecycleMC", ("LifecycleMC", "LifecycleOn")], bad=[("LifecycleMC", "LifecycleHalf"), ("LifecycleMC", "LifecycleAdds"), ("LifecycleMC", "LifecycleBlind"), ("LifecycleMC", "LifecyclePeeks")], trace="LifecycleTrace"),
 "P36": dict(driver="full", bin="life", cmds=["batch"], mc=["BatchMC"], bad=[("BatchMC", "BatchCarry"), ("BatchMC", "BatchWidth")], trace="BatchTrace"),
 "P37": dict(driver="full", bin="config", cmds=["config"], mc=["ConfigMC"], bad=[("ConfigMC", "ConfigResets"), ("ConfigMC", "ConfigForgets"), ("ConfigMC", "ConfigLive"), ("ConfigMC", "ConfigStale")], trace="ConfigTrace"),
 "P38": dict(driver="full", bin="life", cmds=["world"], mc=["WorldMC"], bad=[("WorldMC", "WorldShared"), ("WorldMC", "WorldCached"), ("WorldMC", "WorldOnce")], trace="WorldTrace"),
 "P39": dict(driver="full", bin="extend", cmds=["extend"], mc=["ExtendMC"], bad=[("ExtendMC", "ExtendEarly"), ("ExtendMC", "ExtendLone"), ("ExtendMC", "ExtendLag")], trace="ExtendTrace"),
}
