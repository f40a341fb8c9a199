console.log("nothing to set up");
